------------------------------- MODULE QuDiet -------------------------------
(***************************************************************************)
(* The QuDiet library as a state machine.                                   *)
(*                                                                         *)
(* State      circs : name -> circuit      heap : name -> caller's list     *)
(*            doc   : the QASM document being written                      *)
(*            given : name -> what a call returned, kept by its caller      *)
(*            last  : circuit -> the last result it returned                *)
(*                                                                         *)
(* A circuit is                                                             *)
(*   dims, init  the registers and their initial states                     *)
(*   layers      what the library keeps: a sequence of layers, each a       *)
(*               sequence of blocks in register order; the first layer is   *)
(*               the initial states, the last one of a measured circuit is  *)
(*               the measurements                                           *)
(*   ket         what the user asked for: the gates applied one after the   *)
(*               other in the order they were placed                        *)
(*   count       accepted placements by kind                                *)
(*   frozen      measured                                                   *)
(*   bad         a custom gate without a valid unitary has been accepted,   *)
(*               or the circuit is only looked at (n = 0): ket not followed *)
(*   n           the root of unity its exact amplitudes use                 *)
(*   out         how results are presented                                  *)
(*                                                                         *)
(* One event is one call of the public interface.  Do(st, ev) is the whole  *)
(* transition function: the next state and what the caller observes.        *)
(* Replies: "T"/"F" the call returned True/False, "E" it raised, "N" it     *)
(* returned something irrelevant; "TE", "FE": either of the two.            *)
(***************************************************************************)
EXTENDS Kets, Qasm

Kinds == {"X", "H", "Z", "CX", "T", "U"}

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]

EmptyState == [circs |-> [x \in {} |-> 0], heap |-> [x \in {} |-> 0], doc |-> <<>>,
               given |-> [x \in {} |-> 0],
               last |-> [x \in {} |-> 0]]

-----------------------------------------------------------------------------
(* Construction *)

GoodDims(ds) == Len(ds) >= 1 /\ \A i \in 1..Len(ds) : ds[i] >= 2
GoodInit(ds, init) ==
  Len(init) <= Len(ds) /\ \A i \in 1..Len(init) : init[i] >= 0 /\ init[i] < ds[i]
Padded(ds, init) == [i \in 1..Len(ds) |-> IF i <= Len(init) THEN init[i] ELSE 0]

InitLayer(ds, init) == [i \in 1..Len(ds) |-> [k |-> "S", lo |-> i - 1, hi |-> i - 1, s |-> init[i]]]

NewCircuit(ds, init, n, out) ==
  \* n = 0: a circuit that is only looked at, its state is not followed
  [dims |-> ds, init |-> init, n |-> IF n = 0 THEN 1 ELSE n, out |-> out,
   layers |-> <<InitLayer(ds, init)>>,
   ket |-> BasisKet(IF n = 0 THEN 1 ELSE n, init),
   count |-> [k \in Kinds |-> 0],
   frozen |-> FALSE, bad |-> (n = 0)]

(* the register and initial-state lists an event refers to: a literal or a   *)
(* caller's list                                                            *)
ListArg(st, ref, literal) == IF ref = "" THEN literal ELSE st.heap[ref]

DimsOf(st, ev) ==
  CASE ev.form = "list"  -> ListArg(st, ev.qr, ev.q)
    [] ev.form = "tuple" -> [i \in 1..ev.q[1] |-> ev.q[2]]
    [] OTHER -> <<>>

-----------------------------------------------------------------------------
(* Layers *)

IdleBlock(q) == [k |-> "I", lo |-> q, hi |-> q]
GateBlock(g) == [k |-> g.k, lo |-> Lo(g), hi |-> Hi(g), g |-> g]

SingleLayer(n, g) ==
  [i \in 1..Lo(g) |-> IdleBlock(i - 1)] \o <<GateBlock(g)>>
  \o [i \in 1..(n - 1 - Hi(g)) |-> IdleBlock(Hi(g) + i)]

IsIdleAt(layer, q) == \E i \in 1..Len(layer) : layer[i].k = "I" /\ layer[i].lo = q

FillIdle(layer, g) ==
  [i \in 1..Len(layer) |-> IF layer[i].k = "I" /\ layer[i].lo = g.q THEN GateBlock(g) ELSE layer[i]]

Pack(layers, n, g) ==
  IF g.k \in {"X", "H", "Z"} /\ IsIdleAt(layers[Len(layers)], g.q)
  THEN [layers EXCEPT ![Len(layers)] = FillIdle(@, g)]
  ELSE Append(layers, SingleLayer(n, g))

MeasureLayer(n) == [i \in 1..n |-> [k |-> "M", lo |-> i - 1, hi |-> i - 1]]

(* what the layers mean: every block applied, layer by layer *)
LayersKet(c) ==
  LET blocks == FoldLeft(LAMBDA acc, l : acc \o l, <<>>, Tail(c.layers))
  IN FoldLeft(LAMBDA k, b : IF b.k \in Kinds THEN Apply(k, c.dims, b.g) ELSE k,
              BasisKet(c.n, [i \in 1..Len(c.dims) |-> c.layers[1][i].s]), blocks)

-----------------------------------------------------------------------------
(* Placements *)

InBounds(c, q) == q >= 0 /\ q < Len(c.dims)
Neighbours(qs) == \A i \in 1..(Len(qs) - 1) : qs[i + 1] = qs[i] + 1

(* the gate an event asks for *)
GateOf(st, ev) ==
  CASE ev.e = "x"   -> [k |-> "X", q |-> ev.q, p |-> ev.p]
    [] ev.e = "h"   -> [k |-> "H", q |-> ev.q]
    [] ev.e = "z"   -> [k |-> "Z", q |-> ev.q]
    [] ev.e = "cx"  -> [k |-> "CX", ct |-> ListArg(st, ev.ref, ev.ct), p |-> ev.p]
    [] ev.e = "tof" -> [k |-> "T", cs |-> ListArg(st, ev.ref, ev.cs), t |-> ev.t, p |-> ev.p]
    [] ev.e = "u"   -> [k |-> "U", qs |-> ListArg(st, ev.ref, ev.qs), m |-> ev.m, sf |-> ev.sf]

(* is the request well-formed for circuit c?  ev.d is an explicit dimension, *)
(* 0 if none                                                                *)
WellFormed(c, g, d) ==
  CASE g.k \in {"X", "H", "Z"} -> InBounds(c, g.q) /\ (d # 0 => d = Dim(c.dims, g.q))
    [] g.k = "CX" -> InBounds(c, g.ct[1]) /\ InBounds(c, g.ct[2]) /\ g.ct[1] # g.ct[2]
    [] g.k = "T"  -> /\ \A i \in 1..Len(g.cs) : InBounds(c, g.cs[i])
                     /\ InBounds(c, g.t) /\ \A i \in 1..Len(g.cs) : g.cs[i] # g.t
    [] g.k = "U"  -> /\ \A i \in 1..Len(g.qs) : InBounds(c, g.qs[i])
                     /\ Neighbours(g.qs)
                     /\ d # 0 => \A i \in 1..Len(g.qs) : d = Dim(c.dims, g.qs[i])

ValidMatrix(c, g) ==
  g.k = "U" => /\ Len(g.m) = Prod(SubDims(c.dims, g.qs))
               /\ \A i \in 1..Len(g.m) : Len(g.m[i]) = Len(g.m)
               /\ IsUnitary(c.n, g.m, g.sf)

Place(c, g) ==
  LET ok == ValidMatrix(c, g)
  IN [c EXCEPT !.layers = Pack(@, Len(c.dims), g),
               !.ket = IF ok /\ ~c.bad THEN Apply(@, c.dims, g) ELSE @,
               !.count[g.k] = @ + 1,
               !.bad = @ \/ ~ok]

DoPlace(st, ev) ==
  LET c == st.circs[ev.c]
      g == GateOf(st, ev)
      wf == WellFormed(c, g, ev.d)
  IN IF c.frozen THEN [st |-> st, r |-> IF wf /\ g.k # "U" THEN "F" ELSE "FE"]
     ELSE IF ~wf THEN [st |-> st, r |-> "E"]
     ELSE [st |-> [st EXCEPT !.circs[ev.c] = Place(c, g)],
           r |-> IF ValidMatrix(c, g) THEN "T" ELSE "TE"]

DoMeasure(st, ev) ==
  LET c == st.circs[ev.c]
  IN IF c.frozen THEN [st |-> st, r |-> "F"]
     ELSE [st |-> [st EXCEPT !.circs[ev.c].frozen = TRUE,
                             !.circs[ev.c].layers = Append(@, MeasureLayer(Len(c.dims)))],
           r |-> "T"]

(* an output object used before is as its users have left it                 *)
Private == {"own", "none", "def"}
OutOf(st, ev) ==
  LET same == {x \in DOMAIN st.circs : st.circs[x].out.o = ev.out.o}
  IN IF ev.out.o \in Private \/ same = {} THEN ev.out ELSE st.circs[CHOOSE x \in same : TRUE].out

DoNew(st, ev) ==
  LET ds   == DimsOf(st, ev)
      init == ListArg(st, ev.ir, ev.init)
  IN IF GoodDims(ds) /\ GoodInit(ds, init)
     THEN [st |-> [st EXCEPT !.circs = Put(@, ev.c, NewCircuit(ds, Padded(ds, init), ev.n, OutOf(st, ev))),
                      !.last = [x \in (DOMAIN @) \ {ev.c} |-> @[x]]],
           r |-> "N"]
     ELSE [st |-> st, r |-> "E"]

-----------------------------------------------------------------------------
(* Observations *)

DoRun(c) ==
  IF ~c.frozen \/ c.bad THEN [r |-> "E"]
  ELSE [r |-> "K", n |-> c.n, den |-> DenSeq(c.ket.den), amps |-> Listing(c.ket),
        nreg |-> Len(c.dims), t |-> c.out.t, m |-> c.out.m]

GateLayers(c) == IF c.frozen THEN SubSeq(c.layers, 2, Len(c.layers) - 1) ELSE Tail(c.layers)

Depth(c) == Len(GateLayers(c))

DoConfig(c) == [r |-> "C", width |-> Len(c.dims), depth |-> Depth(c)]

KindName(k) == CASE k = "X" -> "x" [] k = "H" -> "h" [] k = "Z" -> "z"
                 [] k = "CX" -> "cx" [] k = "T" -> "toffoli" [] k = "U" -> "arbitary"

DoInfo(c) ==
  LET present == {k \in Kinds : c.count[k] > 0}
  IN [r |-> "I", depth |-> Depth(c), qudit |-> Len(c.dims),
      gates |-> FoldSet(LAMBDA k, a : a + c.count[k], 0, Kinds),
      details |-> [i \in 1..Cardinality(present) |->
                     LET k == SetToSeq(present)[i] IN <<KindName(k), c.count[k]>>]]

(* text diagram: cells of one layer, register -> symbol, "" where idle *)
CellOf(b, q) ==
  CASE b.k \in {"X", "H", "Z"} ->
         IF b.k = "X" THEN "X(" \o ToString(b.g.p) \o ")" ELSE b.k
    [] b.k \in {"CX", "T"} ->
         IF q \in Controls(b.g) THEN "*"
         ELSE IF q = Target(b.g) THEN "X(" \o ToString(b.g.p) \o ")" ELSE "|"
    [] b.k = "U" -> "G"
    [] b.k = "M" -> "M"
    [] OTHER -> ""

Cell(layer, q) ==
  LET i == CHOOSE i \in 1..Len(layer) : layer[i].lo <= q /\ q <= layer[i].hi
  IN CellOf(layer[i], q)

DoText(c) ==
  [r |-> "X",
   rows |-> [i \in 1..Len(c.dims) |->
      <<"(" \o ToString(c.dims[i]) \o ")|" \o ToString(c.init[i]) \o ">">>
      \o [j \in 1..(Len(c.layers) - 1) |-> Cell(c.layers[j + 1], i - 1)]],
   depth |-> Depth(c), width |-> Len(c.dims)]

(* Matplotlib diagram: per layer the symbols with their rows, and the        *)
(* vertical connections with the rows of their controls                     *)
MplItem(c, b) ==
  CASE b.k = "X" -> [k |-> "X", row |-> b.g.q, p |-> b.g.p, d |-> Dim(c.dims, b.g.q), cs |-> <<>>, hi |-> b.hi]
    [] b.k \in {"H", "Z"} -> [k |-> b.k, row |-> b.g.q, p |-> 0, d |-> 0, cs |-> <<>>, hi |-> b.hi]
    [] b.k \in {"CX", "T"} ->
         [k |-> IF b.k = "CX" /\ Dim(c.dims, b.g.ct[1]) = 2 /\ Dim(c.dims, b.g.ct[2]) = 2 THEN "C2" ELSE "CX",
          row |-> Target(b.g), p |-> b.g.p, d |-> Dim(c.dims, Target(b.g)),
          cs |-> SetToSortSeq(Controls(b.g), <), hi |-> b.hi]
    [] b.k = "U" -> [k |-> "G", row |-> b.lo, p |-> 0, d |-> 0, cs |-> <<>>, hi |-> b.hi]
    [] b.k = "M" -> [k |-> "M", row |-> b.lo, p |-> 0, d |-> 0, cs |-> <<>>, hi |-> b.hi]

DoMpl(c) ==
  [r |-> "D",
   states |-> [i \in 1..Len(c.dims) |-> <<c.dims[i], i - 1, c.init[i]>>],
   layers |-> [j \in 1..(Len(c.layers) - 1) |->
      LET l == SelectSeq(c.layers[j + 1], LAMBDA b : b.k # "I")
      IN [i \in 1..Len(l) |-> MplItem(c, l[i])]]]

DoPeek(c) ==
  [r |-> "P",
   layers |-> [j \in 1..Len(c.layers) |->
      [i \in 1..Len(c.layers[j]) |-> <<c.layers[j][i].k, c.layers[j][i].lo, c.layers[j][i].hi>>]]]

-----------------------------------------------------------------------------
(* The transition function *)

Observe(st, ev) ==
  LET c == st.circs[ev.c]
  IN CASE ev.e = "run"  -> DoRun(c)
       [] ev.e = "cfg"  -> DoConfig(c)
       [] ev.e = "info" -> DoInfo(c)
       [] ev.e = "str"  -> DoText(c)
       [] ev.e = "mpl"  -> DoMpl(c)
       [] ev.e = "peek" -> DoPeek(c)
       [] ev.e = "show" -> DoText(c)            \* draw() to the terminal
       [] ev.e = "last" -> IF ev.c \in DOMAIN st.last THEN st.last[ev.c] ELSE [r |-> "0"]

(* the caller changes how results are presented: in every circuit that uses   *)
(* the same output object, and in no other                                  *)
SameOutput(a, b) == a.out.o \notin Private /\ a.out.o = b.out.o
DoView(st, ev) ==
  [st EXCEPT !.circs = [x \in DOMAIN @ |->
     IF x = ev.c \/ SameOutput(@[x], @[ev.c]) THEN [@[x] EXCEPT !.out.t = ev.t, !.out.m = ev.m] ELSE @[x]]]

Placing  == {"x", "h", "z", "cx", "tof", "u"}
(* what a call returns belongs to its caller, who may keep it (as) and look   *)
(* at it again, or change it                                                *)
DoWatch(st, ev) ==
  LET o == Observe(st, ev)
      s == IF ev.e = "run" /\ o.r = "K" THEN [st EXCEPT !.last = Put(@, ev.c, o)] ELSE st
  IN [st |-> IF "as" \in DOMAIN ev THEN [s EXCEPT !.given = Put(@, ev.as, o)] ELSE s, o |-> o]

AboutNone    == {"list", "set", "app", "look", "line", "blank", "again", "spoil"}   \* about no circuit
Watching == {"run", "cfg", "info", "str", "mpl", "peek", "show", "last"}

DoCall(st, ev) ==
  CASE ev.e = "new" -> LET d == DoNew(st, ev) IN [st |-> d.st, o |-> [r |-> d.r]]
    [] ev.e \in Placing -> LET d == DoPlace(st, ev) IN [st |-> d.st, o |-> [r |-> d.r]]
    [] ev.e = "meas" -> LET d == DoMeasure(st, ev) IN [st |-> d.st, o |-> [r |-> d.r]]
    [] ev.e \in Watching -> DoWatch(st, ev)
    [] ev.e = "clone" ->      \* a deep copy is a circuit of its own, down to its output object
         [st |-> [st EXCEPT !.circs = Put(@, ev.c, IF st.circs[ev.of].out.o \in Private THEN st.circs[ev.of]
                                                   ELSE [st.circs[ev.of] EXCEPT !.out.o = "own"]),
                            !.last = IF ev.of \in DOMAIN @ THEN Put(@, ev.c, @[ev.of])
                                     ELSE [x \in (DOMAIN @) \ {ev.c} |-> @[x]]],
          o |-> [r |-> "N"]]
    [] ev.e = "view" -> [st |-> DoView(st, ev), o |-> [r |-> "N"]]
    [] ev.e = "again" -> [st |-> st, o |-> st.given[ev.as]]
    [] ev.e = "spoil" -> [st |-> [st EXCEPT !.given = [x \in (DOMAIN @) \ {ev.as} |-> @[x]],
                                            \* the circuit may hold the very object: not specified
                                            !.last = [x \in DOMAIN @ |-> IF @[x] = st.given[ev.as] THEN [r |-> "?"] ELSE @[x]]],
                          o |-> [r |-> "N"]]
    [] ev.e = "list" -> [st |-> [st EXCEPT !.heap = Put(@, ev.l, ev.v)], o |-> [r |-> "N"]]
    [] ev.e = "set"  -> [st |-> [st EXCEPT !.heap[ev.l] = [@ EXCEPT ![ev.i] = ev.v]], o |-> [r |-> "N"]]
    [] ev.e = "app"  -> [st |-> [st EXCEPT !.heap[ev.l] = Append(@, ev.v)], o |-> [r |-> "N"]]
    [] ev.e = "look" -> [st |-> st, o |-> [r |-> "L", v |-> st.heap[ev.l]]]

(* parsing the document (the one written line by line, or one handed over     *)
(* with the call) is making the calls it stands for; an error in one   *)
(* of them is an error of the whole                                         *)
DocOf(st, ev) == IF "doc" \in DOMAIN ev THEN ev.doc ELSE st.doc
DoQasm(st, ev) ==
  LET doc == DocOf(st, ev)
      r == FoldLeft(LAMBDA acc, e : IF acc.r = "E" THEN acc
                                    ELSE LET d == DoCall(acc.st, e)
                                         IN [st |-> d.st, r |-> IF d.o.r = "E" THEN "E" ELSE "N"],
                    [st |-> st, r |-> "N"], Meaning(doc, ev.c, ev.n))
  IN [st |-> IF r.r = "E" THEN st ELSE r.st, o |-> [r |-> r.r, text |-> Text(doc)]]

Do(st, ev) ==
  CASE ev.e = "line"  -> [st |-> [st EXCEPT !.doc = Append(@, ev.l)], o |-> [r |-> "N"]]
    [] ev.e = "blank" -> [st |-> [st EXCEPT !.doc = <<>>], o |-> [r |-> "N"]]
    [] ev.e = "qasm"  -> DoQasm(st, ev)
    [] OTHER -> DoCall(st, ev)

-----------------------------------------------------------------------------
(* Invariants, over one circuit *)

LayerOK(c, l) ==       \* blocks cover every register exactly once, in order
  /\ l[1].lo = 0 /\ l[Len(l)].hi = Len(c.dims) - 1
  /\ \A i \in 1..Len(l) : l[i].lo <= l[i].hi
  /\ \A i \in 1..(Len(l) - 1) : l[i + 1].lo = l[i].hi + 1

TypeOK(c) ==
  /\ GoodDims(c.dims) /\ GoodInit(c.dims, c.init) /\ Len(c.init) = Len(c.dims)
  /\ \A x \in DOMAIN c.ket.amp :
       /\ Len(x) = Len(c.dims) /\ \A i \in 1..Len(x) : x[i] \in 0..(c.dims[i] - 1)
       /\ ~CIsZero(c.ket.amp[x])
  /\ Depth(c) <= FoldSet(LAMBDA k, a : a + c.count[k], 0, Kinds)

PartitionInv(c) == \A j \in 1..Len(c.layers) : LayerOK(c, c.layers[j])

RefinementInv(c) == c.bad \/ LayersKet(c) = c.ket       \* layers mean program order
NormInv(c) == Normalised(c.ket)

(* no layer holds more gates than were placed, none is lost *)
CountInv(c) ==
  \A k \in Kinds :
    c.count[k] = FoldLeft(LAMBDA a, l : a + Cardinality({i \in 1..Len(l) : l[i].k = k}), 0, c.layers)

MeasureInv(c) ==
  c.frozen <=> \E j \in 1..Len(c.layers) : \E i \in 1..Len(c.layers[j]) : c.layers[j][i].k = "M"

CircuitInv(c) ==
  TypeOK(c) /\ PartitionInv(c) /\ RefinementInv(c) /\ NormInv(c) /\ CountInv(c) /\ MeasureInv(c)

StateInv(st) == \A x \in DOMAIN st.circs : CircuitInv(st.circs[x])
=============================================================================
