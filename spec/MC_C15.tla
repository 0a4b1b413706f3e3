------------------------------- MODULE MC_C15 -------------------------------
(* Counting: good gates that merge, refused ones, measurement in between.    *)
EXTENDS Explore, Events
A == "a"
S == {<<NewE(A, <<2, 3, 2>>, <<1, 2, 0>>, 12)>>, <<NewE(A, <<2, 3, 2>>, <<1, 2, 0>>, 12), InfoE(A)>>}
O(s, hist) ==
  {XE(A, 0, 1), XE(A, 2, 3), HE(A, 1), ZE(A, 1), CXE(A, <<0, 1>>, 1), CXE(A, <<2, 0>>, 1),
   TofE(A, <<0, 1>>, 2, 1), TofE(A, <<2>>, 0, 1), UI(A, 1, Reflect3), UM(A, <<0, 1>>, Perm(<<3, 1, 2, 6, 5, 4>>)),
   XE(A, 5, 1), CXE(A, <<1, 1>>, 1), MeasE(A)}
C(s, hist) == <<InfoE(A), MeasE(A), InfoE(A), RunE(A), InfoE(A)>>
=============================================================================
