------------------------------- MODULE MC_C19 -------------------------------
(* The text diagram of every short circuit.                                  *)
EXTENDS Explore, Events
A == "a"
S == {<<NewE(A, <<2, 3, 2, 9>>, <<1, 2, 0, 8>>, 12)>>}
O(s, hist) ==
  {XE(A, 0, 1), XE(A, 3, -1), XE(A, 3, 8), HE(A, 1), ZE(A, 2), XE(A, 1, 12),
   CXE(A, <<0, 2>>, 1), CXE(A, <<3, 1>>, 2), CXE(A, <<2, 3>>, -3), CXE(A, <<1, 0>>, 1),
   TofE(A, <<0, 1>>, 3, 1), TofE(A, <<3, 0>>, 1, 2), TofE(A, <<2>>, 0, 1), TofE(A, <<3, 1, 0>>, 2, 1),
   UI(A, 1, Reflect3), UM(A, <<0, 1>>, Perm(<<3, 1, 2, 6, 5, 4>>))}
C(s, hist) == <<StrE(A), MeasE(A), StrE(A)>>
=============================================================================
