------------------------------- MODULE MC_C26 -------------------------------
(* Moments of every make-up on [2, 3] and [3, 2, 2]: every sequence of up to *)
(* Bound fills, copies and pushes, everything asked before, between, after.  *)
EXTENDS Flow, Json
CONSTANTS Bound
VARIABLES st, h, obs, ph
vars == <<st, h, obs, ph>>
N == 6
I(q) == [k |-> "I", q |-> q]
X(q, p) == [k |-> "X", q |-> q, p |-> p]
H(q) == [k |-> "H", q |-> q]
Z(q) == [k |-> "Z", q |-> q]
Ini(ss) == [i \in 1..Len(ss) |-> [k |-> "S", q |-> i - 1, s |-> ss[i]]]
Mea(n) == [i \in 1..n |-> [k |-> "M", q |-> i - 1]]
CX(c, t, p) == [k |-> "CX", ct |-> <<c, t>>, p |-> p]
T(cs, t, p) == [k |-> "T", cs |-> cs, t |-> t, p |-> p]
DimsOf(d) == IF d = 2 THEN <<2, 3>> ELSE IF d = 3 THEN <<3, 2, 2>> ELSE <<2, 3, 2, 2>>
Stock(d) ==
  CASE d = 2 -> {<<I(0), I(1)>>, <<X(0, 1), I(1)>>, <<I(0), H(1)>>, <<CX(0, 1, 1)>>, Mea(2)}
    [] d = 3 -> {<<I(0), I(1), I(2)>>, <<CX(0, 1, 1), I(2)>>, <<I(0), CX(2, 1, 1)>>, <<CX(2, 0, 1)>>,
                 <<T(<<2, 0>>, 1, 1)>>, <<T(<<1>>, 0, 2), I(2)>>, <<Z(0), I(1), X(2, 1)>>}
    [] d = 4 -> {<<CX(0, 2, 1), I(3)>>, <<I(0), CX(3, 1, 1)>>, <<CX(1, 0, 1), I(2), I(3)>>, <<T(<<0>>, 2, 1), I(3)>>,
                 <<I(0), I(1), CX(2, 3, 1)>>}
Ones(d) == {X(q, 1) : q \in 0..Len(DimsOf(d))} \cup {H(0), Z(Len(DimsOf(d)) - 1)}
RunAll(s, evs) ==
  FoldLeft(LAMBDA acc, e : LET x == Do(acc.st, e) IN [st |-> x.st, obs |-> Append(acc.obs, x.o)],
           [st |-> s, obs |-> <<>>], evs)
Questions(m, d) ==
  <<[e |-> "ops", m |-> m]>>
  \o [i \in 1..Len(DimsOf(d)) |-> [e |-> "at", m |-> m, q |-> i - 1, ix |-> i % 2 = 0]]
  \o [i \in 1..Len(DimsOf(d)) |-> [e |-> "idle", m |-> m, q |-> i - 1]]
Mom(name, d, ops) == [e |-> "moment", m |-> name, dims |-> DimsOf(d), n |-> N, ops |-> ops]
Begin(d, ops) ==
  <<Mom("a", d, ops), Mom("i", d, Ini([i \in 1..Len(DimsOf(d)) |-> 1])), Mom("M", d, Mea(Len(DimsOf(d))))>>
  \o Questions("a", d)
  \o <<[e |-> "flow", f |-> "f", ms |-> <<"i">>]>>
Init == \E d \in {2, 3, 4} : \E ops \in Stock(d) :
          LET r == RunAll(Empty, Begin(d, ops))
          IN st = r.st /\ h = [ev |-> Begin(d, ops), d |-> d, len |-> 0, used |-> {}] /\ obs = r.obs /\ ph = "go"
Open == (DOMAIN st.moms \cap {"a", "b"}) \ h.used      \* a Moment in a flow is not filled any more
Fills == {[e |-> "fill", m |-> m, op |-> o] : m \in Open, o \in Ones(h.d)}
Dups == IF "b" \in DOMAIN st.moms THEN {} ELSE {[e |-> "dup", m |-> "a", to |-> "b"]}
Mats == {[e |-> "mat", m |-> m] : m \in {x \in Open : st.moms[x].ops[1].k # "M"}}
Pushes == {[e |-> "push", f |-> "f", ms |-> <<m>>] : m \in {x \in Open : st.moms[x].ops[1].k # "M"}}
Call == /\ ph = "go" /\ h.len < Bound
        /\ \E e \in Fills \cup Dups \cup Pushes \cup Mats :
             LET x == Do(st, e)
             IN /\ st' = x.st /\ obs' = Append(obs, x.o)
                /\ h' = [h EXCEPT !.ev = Append(@, e), !.len = @ + 1,
                                  !.used = @ \cup (IF e.e = "push" THEN {e.ms[1]} ELSE {})]
        /\ UNCHANGED ph
Closing ==
  LET own == SetToSeq(DOMAIN st.moms \cap {"a", "b"})
  IN FoldLeft(LAMBDA s, m : s \o Questions(m, h.d), <<>>, own)
     \o FoldLeft(LAMBDA s, m : s \o (IF st.moms[m].ops[1].k = "M" THEN <<>> ELSE <<[e |-> "mat", m |-> m]>>), <<>>, own)
     \o <<[e |-> "mat", m |-> "i"], [e |-> "push", f |-> "f", ms |-> <<"M">>], [e |-> "exec", f |-> "f"]>>
     \o FoldLeft(LAMBDA s, m : Append(s, [e |-> "ops", m |-> m]), <<>>, own)
Close == /\ ph = "go"
         /\ LET r == RunAll(st, Closing)
            IN st' = r.st /\ PrintT("QV " \o ToJson([ev |-> h.ev \o Closing, obs |-> obs \o r.obs]))
         /\ ph' = "end" /\ UNCHANGED <<h, obs>>
Next == Call \/ Close
Spec == Init /\ [][Next]_vars
Inv == FlowInv(st)
(* a step changes at most one place of one Moment, and that was idle *)
OnePlace ==
  [][\A m \in DOMAIN st.moms :
       \/ st'.moms[m] = st.moms[m]
       \/ /\ \A x \in DOMAIN st.moms : x # m => st'.moms[x] = st.moms[x]
          /\ \E q \in 0..(Len(st.moms[m].dims) - 1) :
               /\ Idle(st.moms[m], q) /\ ~Idle(st'.moms[m], q)
               /\ \A i \in 1..Len(st.moms[m].ops) :
                    i # OpAt(st.moms[m], q) => st'.moms[m].ops[i] = st.moms[m].ops[i]]_vars
=============================================================================
