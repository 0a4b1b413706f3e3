------------------------------- MODULE MC_C21 -------------------------------
(* Every way of pushing up to Bound layers of a stock of Moments on [2, 3]   *)
(* and [3, 2, 2] into two flows, singly and in pairs, with measurement and   *)
(* execution at any time.                                                   *)
EXTENDS Flow, Json
CONSTANTS Bound
VARIABLES st, h, obs, ph
vars == <<st, h, obs, ph>>
N == 6
I(q) == [k |-> "I", q |-> q]
X(q, p) == [k |-> "X", q |-> q, p |-> p]
H(q) == [k |-> "H", q |-> q]
Z(q) == [k |-> "Z", q |-> q]
Ini(ss) == [i \in 1..Len(ss) |-> [k |-> "S", q |-> i - 1, s |-> ss[i]]]
Mea(n) == [i \in 1..n |-> [k |-> "M", q |-> i - 1]]
CX(c, t, p) == [k |-> "CX", ct |-> <<c, t>>, p |-> p]
T(cs, t, p) == [k |-> "T", cs |-> cs, t |-> t, p |-> p]
Stock(d) ==
  IF d = 2 THEN <<<<X(0, 1), I(1)>>, <<I(0), X(1, 1)>>, <<X(0, 1), X(1, 2)>>, <<I(0), H(1)>>, <<Z(0), H(1)>>,
                  <<CX(0, 1, 1)>>, <<CX(1, 0, 1)>>, <<I(0), I(1)>>, <<H(0), I(1)>>>>
  ELSE <<<<I(0), X(1, 1), H(2)>>, <<CX(0, 1, 1), X(2, 1)>>, <<H(0), CX(2, 1, 1)>>, <<T(<<0, 2>>, 1, 1)>>,
         <<X(0, 2), I(1), I(2)>>, <<I(0), H(1), I(2)>>, <<I(0), I(1), Z(2)>>>>
DimsOf(d) == IF d = 2 THEN <<2, 3>> ELSE <<3, 2, 2>>
Name(j) == "m" \o ToString(j)
Mom(name, d, ops) == [e |-> "moment", m |-> name, dims |-> DimsOf(d), n |-> N, ops |-> ops]
Begin(d) ==
  <<Mom("i", d, Ini(IF d = 2 THEN <<1, 0>> ELSE <<2, 0, 1>>)), Mom("M", d, Mea(d))>>
  \o [j \in 1..Len(Stock(d)) |-> Mom(Name(j), d, Stock(d)[j])]
  \o <<[e |-> "flow", f |-> "f", ms |-> <<>>], [e |-> "flow", f |-> "g", ms |-> <<"i">>],
       [e |-> "push", f |-> "f", ms |-> <<"i">>]>>
RunAll(s, evs) ==
  FoldLeft(LAMBDA acc, e : LET d == Do(acc.st, e) IN [st |-> d.st, obs |-> Append(acc.obs, d.o)],
           [st |-> s, obs |-> <<>>], evs)
Init == \E d \in {2, 3} : LET r == RunAll(Empty, Begin(d))
                          IN st = r.st /\ h = [ev |-> Begin(d), d |-> d, len |-> 0] /\ obs = r.obs /\ ph = "go"
Ms(d) == {Name(j) : j \in 1..Len(Stock(d))}
Pushes(d) == {<<m>> : m \in Ms(d) \cup {"M"}} \cup {<<m, x>> : m \in Ms(d), x \in {"m2", "m5", "M"}}
Offer == {[e |-> "push", f |-> "f", ms |-> ms] : ms \in Pushes(h.d)}
         \cup {[e |-> "push", f |-> "g", ms |-> ms] : ms \in {<<"m1">>, <<"m6", "m1">>}}
         \cup (IF h.len > 0 THEN {[e |-> "exec", f |-> "f"]} ELSE {})
Call == /\ ph = "go" /\ h.len < Bound
        /\ \E e \in Offer :
             LET x == Do(st, e)
             IN st' = x.st /\ h' = [h EXCEPT !.ev = Append(@, e), !.len = @ + 1] /\ obs' = Append(obs, x.o)
        /\ UNCHANGED ph
Closing == <<[e |-> "exec", f |-> "f"], [e |-> "push", f |-> "f", ms |-> <<"M">>], [e |-> "exec", f |-> "f"],
             [e |-> "push", f |-> "f", ms |-> <<"m1">>], [e |-> "push", f |-> "g", ms |-> <<"m2", "M", "m1">>],
             [e |-> "exec", f |-> "g"], [e |-> "exec", f |-> "f"]>>
Close == /\ ph = "go"
         /\ LET r == RunAll(st, Closing)
            IN st' = r.st /\ PrintT("QV " \o ToJson([ev |-> h.ev \o Closing, obs |-> obs \o r.obs]))
         /\ ph' = "end" /\ UNCHANGED <<h, obs>>
Next == Call \/ Close
Spec == Init /\ [][Next]_vars
Inv == FlowInv(st)
(* a frozen flow never changes *)
Closed == [][\A x \in DOMAIN st.flows : st.flows[x].frozen => st'.flows[x] = st.flows[x]]_vars
=============================================================================
