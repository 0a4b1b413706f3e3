------------------------------- MODULE MC_C03 -------------------------------
(* CX between every ordered pair of registers, from every basis state.       *)
EXTENDS Explore, Events
A == "a"
Shapes == {<<2, 2>>, <<2, 3>>, <<3, 2>>, <<4, 3>>, <<3, 4, 2>>, <<2, 3, 3, 2>>, <<3, 2, 2, 4>>}
S == UNION {{<<NewE(A, ds, DigitsOf(ix, ds), 1)>> : ix \in 0..(Prod(ds) - 1)} : ds \in Shapes}
O(s, hist) ==
  LET ds == s.circs[A].dims
  IN {CXE(A, <<c, t>>, p) : c \in Regs(ds), t \in Regs(ds), p \in {-7, -1, 1, 2, 3, 5}}
     \ {CXE(A, <<c, c>>, p) : c \in Regs(ds), p \in {-7, -1, 1, 2, 3, 5}}
C(s, hist) == <<MeasE(A), RunE(A)>>
=============================================================================
