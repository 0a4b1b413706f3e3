------------------------------- MODULE Gates -------------------------------
(***************************************************************************)
(* Gate objects on their own: the caller makes gates for the registers dims *)
(* and asks each what it is, in any order and any number of times.          *)
(*                                                                         *)
(* State   shelf : name -> [dims, n, op]      the gates the caller holds    *)
(*                                                                         *)
(* Ops are those of Flow.  A gate's matrix is taken over its span, the      *)
(* registers from the first to the last it touches.                         *)
(***************************************************************************)
EXTENDS Flow

Span(g) == OLo(g.op)..OHi(g.op)
SpanDims(g) == [i \in 1..Cardinality(Span(g)) |-> g.dims[OLo(g.op) + i]]

(* the same op, with the first register of its span as register 0 *)
Local(o) ==
  LET s == OLo(o)
  IN CASE o.k = "CX" -> [o EXCEPT !.ct = <<@[1] - s, @[2] - s>>]
       [] o.k = "T"  -> [o EXCEPT !.cs = [i \in 1..Len(@) |-> @[i] - s], !.t = @ - s]
       [] o.k = "U"  -> [o EXCEPT !.qs = [i \in 1..Len(@) |-> @[i] - s]]
       [] OTHER -> [o EXCEPT !.q = 0]

(* column ix: the image of the basis state ix *)
Column(g, ix) ==
  LET ds == SpanDims(g)
      k  == IF Gate(g.op) THEN Apply(BasisKet(g.n, DigitsOf(ix, ds)), ds, Local(g.op))
            ELSE BasisKet(g.n, IF g.op.k = "S" THEN <<g.op.s>> ELSE DigitsOf(ix, ds))
  IN k
Width(g) == IF g.op.k = "S" THEN 1 ELSE Prod(SpanDims(g))
Columns(g) == [j \in 1..Width(g) |-> Column(g, j - 1)]

(* a matrix given to a custom gate that is none for its registers *)
Wrong(g) == g.op.k = "U" /\ ~(Len(g.op.m) = Prod(SpanDims(g)) /\ IsUnitary(g.n, g.op.m, g.op.sf))

ColumnOut(g, k) == [den |-> DenSeq(k.den),
                    rows |-> [i \in 1..Len(Listing(k)) |-> <<IndexOf(Listing(k)[i][1], SpanDims(g)), Listing(k)[i][2]>>]]
ActingOn(g) == IF g.op.k = "CX" THEN g.op.ct
               ELSE IF g.op.k = "T" THEN g.op.cs \o <<g.op.t>>
               ELSE IF g.op.k = "U" THEN g.op.qs ELSE <<g.op.q>>
YesNo(b) == [r |-> IF b THEN "T" ELSE "F"]

Tell(g, what) ==
  CASE what = "unitary" ->
         IF g.op.k = "M" THEN [r |-> "N"]            \* a measurement has none
         ELSE IF Wrong(g) THEN [r |-> "E"]
         ELSE [r |-> "U", n |-> g.n, size |-> Prod(SpanDims(g)),
               cols |-> [j \in 1..Width(g) |-> ColumnOut(g, Columns(g)[j])]]
    [] what = "acting_on" -> [r |-> "A", qs |-> ActingOn(g), k |-> g.op.k]
    [] what = "is_controlled" -> YesNo(g.op.k \in {"CX", "T"})
    [] what = "is_single_qudit" -> YesNo(Len(ActingOn(g)) = 1)

Whats(o) == IF o.k = "S" THEN {"unitary"} ELSE {"unitary", "acting_on", "is_controlled", "is_single_qudit"}

GDo(shelf, ev) ==
  CASE ev.e = "make" -> [st |-> Put(shelf, ev.g, [dims |-> ev.dims, n |-> ev.n, op |-> ev.op]), o |-> [r |-> "-"]]
    [] ev.e = "ask"  -> [st |-> shelf, o |-> Tell(shelf[ev.g], ev.w)]
    [] ev.e = "smear" -> [st |-> shelf, o |-> [r |-> "-"]]   \* the caller changes a matrix it was given
    [] ev.e = "drop" -> [st |-> [x \in (DOMAIN shelf) \ {ev.g} |-> shelf[x]], o |-> [r |-> "-"]]

-----------------------------------------------------------------------------
Inner(n, a, b) ==
  FoldSet(LAMBDA x, acc : CAdd(acc, CMul(n, a[x], CConj(n, b[x]))), CZero(n), DOMAIN a \cap DOMAIN b)
(* the columns of every gate on the shelf are orthonormal *)
GateOK(g) ==
  LET c == Columns(g)
  IN /\ \A j \in 1..Len(c) : Normalised(c[j])
     /\ \A i, j \in 1..Len(c) : i < j => CIsZero(Inner(g.n, c[i].amp, c[j].amp))
ShelfOK(shelf) == \A x \in DOMAIN shelf : Wrong(shelf[x]) \/ GateOK(shelf[x])
=============================================================================
