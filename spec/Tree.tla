-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* The tree decomposition of the n-qubit Toffoli gate (test_circuit/).       *)
(*                                                                         *)
(* The c = n - 1 controls are the nodes 1..c of a complete binary tree      *)
(* (children 2v, 2v + 1), laid out in order on lines 0..c-1; line c is the  *)
(* target.  Going up, a left child that is at its top raises its sibling,   *)
(* a sibling at its top raises the parent (a lone left child raises the     *)
(* parent itself); the root at its top flips the target; going down undoes. *)
(*                                                                         *)
(* A gate is [c, t, p]: add p to line t (modulo its dimension) if line c is *)
(* at its top level.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Inner(c, v) == 2 * v <= c
Nodes(c) == 1..c

RECURSIVE InOrder(_, _)
InOrder(c, v) == IF v > c THEN <<>> ELSE InOrder(c, 2 * v) \o <<v>> \o InOrder(c, 2 * v + 1)
LineOf(c) == LET o == InOrder(c, 1) IN [v \in Nodes(c) |-> (CHOOSE i \in 1..c : o[i] = v) - 1]

(* highest level a node reaches: 1 of its own, one more from its children,  *)
(* one more from its left sibling                                           *)
Top(c, v) == 1 + (IF Inner(c, v) THEN 1 ELSE 0) + (IF v > 1 /\ v % 2 = 1 THEN 1 ELSE 0)

Dims(n) == LET c == n - 1
               o == InOrder(c, 1)
           IN [i \in 1..n |-> IF i = n THEN 2 ELSE Top(c, o[i]) + 1]

RECURSIVE Up(_, _)
Up(c, v) ==        \* as pairs of nodes, control first
  IF ~Inner(c, v) THEN <<>>
  ELSE IF 2 * v + 1 > c THEN Up(c, 2 * v) \o <<<<2 * v, v>>>>
  ELSE Up(c, 2 * v) \o Up(c, 2 * v + 1) \o <<<<2 * v, 2 * v + 1>>, <<2 * v + 1, v>>>>

Gates(n) ==
  LET c == n - 1
      l == LineOf(c)
      up == [i \in 1..Len(Up(c, 1)) |-> LET g == Up(c, 1)[i] IN [c |-> l[g[1]], t |-> l[g[2]], p |-> 1]]
  IN up \o <<[c |-> l[1], t |-> c, p |-> 1]>>
     \o [i \in 1..Len(up) |-> [up[Len(up) + 1 - i] EXCEPT !.p = -1]]

-----------------------------------------------------------------------------
Fires(dims, x, g) == x[g.c + 1] = dims[g.c + 1] - 1
Act(dims, x, g) ==
  IF Fires(dims, x, g) THEN [x EXCEPT ![g.t + 1] = (@ + g.p) % dims[g.t + 1]] ELSE x
RunGates(dims, gates, x) == FoldLeft(LAMBDA a, g : Act(dims, a, g), x, gates)

(* the n-qubit Toffoli *)
Expected(x) ==
  LET n == Len(x)
  IN IF \A i \in 1..(n - 1) : x[i] = 1 THEN [x EXCEPT ![n] = 1 - @] ELSE x
Ones(n) == [i \in 1..n |-> 1]

(* a gate is quaternary if level 3 plays a part when everything fires *)
Involved(dims, gates) ==
  FoldLeft(LAMBDA a, g :
             LET y == Act(dims, a.x, g)
             IN [x |-> y, q |-> a.q + IF Fires(dims, a.x, g) /\ 3 \in {a.x[g.c + 1], a.x[g.t + 1], y[g.t + 1]}
                                      THEN 1 ELSE 0],
           [x |-> Ones(Len(dims)), q |-> 0], gates)
Quaternary(dims, gates) == Involved(dims, gates).q

Number(dims, d) == Cardinality({i \in 1..Len(dims) : dims[i] = d})

(* closed formulas *)
Odd(c) == c % 2
CTern(n) == LET c == n - 1 IN 4 * (c \div 4) + 3 + 2 * Odd(c)
CQuat(n) == LET c == n - 1 IN 4 * (c \div 2) - 4 * (c \div 4) - 4
CQubits(n) == LET c == n - 1 IN (c \div 2) - (c \div 4) + 1
CQutrits(n) == LET c == n - 1 IN 2 * (c \div 4) + 1 + Odd(c)
CQuquarts(n) == LET c == n - 1 IN (c \div 2) - (c \div 4) - 1
=============================================================================
