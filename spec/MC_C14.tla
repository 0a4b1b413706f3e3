------------------------------- MODULE MC_C14 -------------------------------
(* Layer packing: single-qudit gates around gates of different spans.        *)
EXTENDS Explore, Events
A == "a"
S == {<<NewE(A, <<2, 3, 2, 2>>, <<1, 2, 0, 1>>, 12)>>}
O(s, hist) ==
  {XE(A, 0, 1), XE(A, 1, 1), XE(A, 2, 1), XE(A, 3, 1), HE(A, 0), ZE(A, 2),
   CXE(A, <<0, 2>>, 1), CXE(A, <<2, 1>>, 1), CXE(A, <<3, 2>>, 1),
   TofE(A, <<0, 1>>, 2, 1), TofE(A, <<3>>, 1, 1), UI(A, 1, Reflect3), UM(A, <<2, 3>>, Perm(<<2, 3, 4, 1>>))}
C(s, hist) == <<CfgE(A), PeekE(A), InfoE(A), MeasE(A), PeekE(A), CfgE(A), InfoE(A), RunE(A)>>
=============================================================================
