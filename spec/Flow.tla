-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* Operator flows used directly: the caller builds Moments (layers of       *)
(* gates, one block per stretch of registers) and pushes them, singly or    *)
(* several per call, into flows, which may share Moments.                   *)
(*                                                                         *)
(* State   moms  : name -> [dims, n, ops]      a Moment the caller holds    *)
(*         flows : name -> [dims, n, layers, frozen]                        *)
(*                                                                         *)
(* An op is an initial state [k |-> "S", q, s], an identity [k |-> "I", q], *)
(* a measurement [k |-> "M", q] or a gate of Kets.                          *)
(***************************************************************************)
EXTENDS Kets

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Gate(o) == o.k \notin {"S", "I", "M"}
OLo(o) == IF Gate(o) THEN Lo(o) ELSE o.q
OHi(o) == IF Gate(o) THEN Hi(o) ELSE o.q

(* a complete layer: every register once, in order, all of one sort *)
Complete(m) ==
  /\ Len(m.ops) > 0 /\ OLo(m.ops[1]) = 0 /\ OHi(m.ops[Len(m.ops)]) = Len(m.dims) - 1
  /\ \A i \in 1..(Len(m.ops) - 1) : OLo(m.ops[i + 1]) = OHi(m.ops[i]) + 1
  /\ \/ \A i \in 1..Len(m.ops) : m.ops[i].k = "S"
     \/ \A i \in 1..Len(m.ops) : m.ops[i].k = "M"
     \/ \A i \in 1..Len(m.ops) : m.ops[i].k = "I" \/ Gate(m.ops[i])

Empty == [moms |-> [x \in {} |-> 0], flows |-> [x \in {} |-> 0]]
NewFlow == [dims |-> <<>>, n |-> 1, layers |-> <<>>, frozen |-> FALSE]

PushOne(f, m) ==
  [dims |-> m.dims, n |-> m.n, layers |-> Append(f.layers, m.ops), frozen |-> m.ops[1].k = "M"]

(* Moments are pushed one by one; the first refused one ends the call *)
PushAll(f, ms) ==
  FoldLeft(LAMBDA a, m : IF a.r = "F" THEN a
                         ELSE IF a.f.frozen THEN [a EXCEPT !.r = "F"]
                         ELSE [a EXCEPT !.f = PushOne(@, m)],
           [f |-> f, r |-> "T"], ms)

ApplyLayer(ket, dims, l) ==
  FoldLeft(LAMBDA k, o : IF Gate(o) THEN Apply(k, dims, o) ELSE k, ket, l)

(* the layers applied in the order pushed to the initial state *)
Outcome(f) ==
  FoldLeft(LAMBDA k, l : ApplyLayer(k, f.dims, l),
           BasisKet(f.n, [i \in 1..Len(f.dims) |-> f.layers[1][i].s]), Tail(f.layers))

Exec(f) ==
  IF ~f.frozen THEN [r |-> "E"]
  ELSE LET k == Outcome(f)
       IN [r |-> "V", n |-> k.n, den |-> DenSeq(k.den), amps |-> Listing(k), dims |-> f.dims]

(***************************************************************************)
(* A Moment on its own.  Each register is in exactly one op of it.          *)
(***************************************************************************)
OpAt(m, q) == CHOOSE i \in 1..Len(m.ops) : OLo(m.ops[i]) <= q /\ q <= OHi(m.ops[i])
Touches(o, q) == q \in (IF o.k = "CX" THEN ToSet(o.ct)
                        ELSE IF o.k = "T" THEN ToSet(o.cs) \cup {o.t}
                        ELSE IF o.k = "U" THEN ToSet(o.qs) ELSE {o.q})
Inside(m, q) == 0 <= q /\ q < Len(m.dims)
Idle(m, q) == Inside(m, q) /\ m.ops[OpAt(m, q)].k = "I"
Filled(m, o) == [m EXCEPT !.ops[OpAt(m, o.q)] = o]
Dimension(m) == Prod(m.dims)
(* the image of every basis state; an initial layer is a column by itself *)
Image(m, ix) == LET k == IF m.ops[1].k = "S"
                         THEN BasisKet(m.n, [i \in 1..Len(m.dims) |-> m.ops[i].s])
                         ELSE ApplyLayer(BasisKet(m.n, DigitsOf(ix, m.dims)), m.dims, m.ops)
                IN [den |-> DenSeq(k.den),
                    rows |-> [i \in 1..Len(Listing(k)) |-> <<IndexOf(Listing(k)[i][1], m.dims), Listing(k)[i][2]>>]]
Answer(m, ev) ==
  CASE ev.e = "ops"  -> [r |-> "O", ops |-> m.ops]
    [] ev.e = "at"   -> IF ~Inside(m, ev.q) THEN [r |-> "Z"]
                        ELSE IF Touches(m.ops[OpAt(m, ev.q)], ev.q) THEN [r |-> "At", i |-> OpAt(m, ev.q) - 1]
                        ELSE [r |-> "?"]           \* between the control and the target of a CX
    [] ev.e = "idle" -> [r |-> IF Idle(m, ev.q) THEN "T" ELSE "F"]
    [] ev.e = "mat"  -> [r |-> "U", n |-> m.n, size |-> Dimension(m),
                         cols |-> [j \in 1..(IF m.ops[1].k = "S" THEN 1 ELSE Dimension(m)) |-> Image(m, j - 1)]]

Do(st, ev) ==
  CASE ev.e \in {"ops", "at", "idle", "mat"} -> [st |-> st, o |-> Answer(st.moms[ev.m], ev)]
    [] ev.e = "fill" ->          \* put a one-register gate on an idle place
         IF Idle(st.moms[ev.m], ev.op.q)
         THEN [st |-> [st EXCEPT !.moms[ev.m] = Filled(@, ev.op)], o |-> [r |-> "T"]]
         ELSE [st |-> st, o |-> [r |-> "F"]]
    [] ev.e = "dup" -> [st |-> [st EXCEPT !.moms = Put(@, ev.to, st.moms[ev.m])], o |-> [r |-> "N"]]
    [] ev.e = "moment" ->
         [st |-> [st EXCEPT !.moms = Put(@, ev.m, [dims |-> ev.dims, n |-> ev.n, ops |-> ev.ops])],
          o |-> [r |-> "N"]]
    [] ev.e = "flow" ->
         [st |-> [st EXCEPT !.flows = Put(@, ev.f, PushAll(NewFlow, [i \in 1..Len(ev.ms) |-> st.moms[ev.ms[i]]]).f)],
          o |-> [r |-> "N"]]
    [] ev.e = "push" ->
         LET p == PushAll(st.flows[ev.f], [i \in 1..Len(ev.ms) |-> st.moms[ev.ms[i]]])
         IN [st |-> [st EXCEPT !.flows[ev.f] = p.f], o |-> [r |-> p.r]]
    [] ev.e = "exec" -> [st |-> st, o |-> Exec(st.flows[ev.f])]

-----------------------------------------------------------------------------
MomentsOK(st) == \A m \in DOMAIN st.moms : Complete(st.moms[m])
FlowOK(f) ==
  f.layers = <<>> \/
  /\ \A i \in 1..Len(f.layers) :
       /\ (f.layers[i][1].k = "S") <=> i = 1
       /\ (f.layers[i][1].k = "M") => i = Len(f.layers) /\ f.frozen
  /\ (\A i \in 1..Len(f.layers) : \A j \in 1..Len(f.layers[i]) :
        f.layers[i][j].k = "X" => f.layers[i][j].q < Len(f.dims))
  /\ Normalised(Outcome(f))
FlowInv(st) == MomentsOK(st) /\ \A x \in DOMAIN st.flows : FlowOK(st.flows[x])
=============================================================================
