------------------------------- MODULE MC_C08 -------------------------------
(* Every basis state of different register lists, and superpositions, in     *)
(* every form of output.                                                    *)
EXTENDS Explore, Events
A == "a"
Shapes == {<<2>>, <<3>>, <<10>>, <<2, 3>>, <<3, 2>>, <<10, 2>>, <<2, 3, 4>>, <<4, 3, 2>>, <<2, 2, 2, 2>>}
Wide == {<<11, 2>>, <<2, 13>>}
Outs == {OutA, OutP, OutT, OutTP, OutD}
S == UNION {UNION {{<<NewO(A, ds, DigitsOf(ix, ds), 12, out)>> : ix \in 0..(Prod(ds) - 1)} : ds \in Shapes} : out \in Outs}
     \cup UNION {UNION {{<<NewO(A, ds, DigitsOf(ix, ds), 12, out)>> : ix \in 0..(Prod(ds) - 1)} : ds \in Wide} : out \in {OutT, OutTP, OutA, OutP}}
O(s, hist) ==
  LET ds == s.circs[A].dims
      qs == {q \in Regs(ds) : 12 % Dim(ds, q) = 0}
  IN {HE(A, q) : q \in qs} \cup {ZE(A, q) : q \in qs}
     \cup {UI(A, q, NonSym(12)) : q \in {q \in qs : Dim(ds, q) = 2}}
C(s, hist) == <<MeasE(A), RunE(A)>>
=============================================================================
