------------------------------- MODULE MC_C01 -------------------------------
(* Every sequence of up to Bound gates of a mixed alphabet on [2, 3, 2].     *)
EXTENDS Explore, Events
A == "a"
S == {<<NewE(A, <<2, 3, 2>>, init, 12)>> : init \in {<<1, 2, 0>>, <<0, 1, 1>>}}
O(s, hist) ==
  {XE(A, 0, 1), XE(A, 1, -1), HE(A, 1), HE(A, 2), ZE(A, 1), ZE(A, 0),
   CXE(A, <<0, 1>>, 1), CXE(A, <<1, 0>>, 1), CXE(A, <<2, 0>>, 1), CXE(A, <<0, 2>>, -1), CXE(A, <<1, 2>>, 1),
   TofE(A, <<0, 1>>, 2, 1), TofE(A, <<2, 0>>, 1, 2),
   UI(A, 2, NonSym(12)), UM(A, <<1, 2>>, PhasedPerm(<<2, 3, 4, 5, 6, 1>>, <<0, 1, 2, 3, 4, 5>>)),
   UM(A, <<0, 1>>, Perm(<<3, 1, 2, 6, 5, 4>>))}
C(s, hist) == <<RunE(A), MeasE(A), RunE(A), InfoE(A)>>
=============================================================================
