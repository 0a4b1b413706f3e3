------------------------------- MODULE Radix -------------------------------
(***************************************************************************)
(* Mixed-radix numbers as an odometer: starting from all zeros, each step   *)
(* turns the last wheel and carries.  The index is the number of steps.     *)
(* Large indices are sequences of limbs, least significant first.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Zeros(b) == [i \in 1..Len(b) |-> 0]
Last_(b) == [i \in 1..Len(b) |-> b[i] - 1]

(* the next digit string, wrapping around *)
RECURSIVE Carry(_, _, _)
Carry(b, d, i) ==
  IF i = 0 THEN d
  ELSE IF d[i] + 1 < b[i] THEN [d EXCEPT ![i] = @ + 1]
  ELSE Carry(b, [d EXCEPT ![i] = 0], i - 1)
Step(b, d) == Carry(b, d, Len(d))

(* Horner *)
Index(b, d) == FoldLeft(LAMBDA a, i : a * b[i] + d[i], 0, [i \in 1..Len(b) |-> i])

LexLess(x, y) == \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]

-----------------------------------------------------------------------------
Limb == 10000
RECURSIVE Norm(_, _)
Norm(l, c) ==        \* propagate carries
  IF l = <<>> THEN IF c = 0 THEN <<>> ELSE <<c % Limb>> \o Norm(<<>>, c \div Limb)
  ELSE <<(l[1] + c) % Limb>> \o Norm(Tail(l), (l[1] + c) \div Limb)
MulAdd(l, k, a) == Norm([i \in 1..Len(l) |-> l[i] * k], a)
BigIndex(b, d) == FoldLeft(LAMBDA a, i : MulAdd(a, b[i], d[i]), <<>>, [i \in 1..Len(b) |-> i])
Value(l) == FoldLeft(LAMBDA a, i : a * Limb + l[Len(l) + 1 - i], 0, [i \in 1..Len(l) |-> i])
=============================================================================
