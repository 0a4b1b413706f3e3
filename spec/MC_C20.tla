------------------------------- MODULE MC_C20 -------------------------------
(* The Matplotlib diagram of every short circuit.                            *)
EXTENDS Explore, Events
A == "a"
S == {<<NewE(A, <<2, 3, 2, 2>>, <<1, 2, 0, 1>>, 12), XE(A, 0, 1)>>, <<NewE(A, <<2, 3, 2, 2>>, <<1, 2, 0, 1>>, 12), CXE(A, <<2, 3>>, 1)>>}
O(s, hist) ==
  {XE(A, 0, 1), XE(A, 3, -1), XE(A, 1, 5), HE(A, 1), ZE(A, 2),
   CXE(A, <<0, 2>>, 1), CXE(A, <<3, 1>>, 2), CXE(A, <<3, 2>>, 1), CXE(A, <<1, 0>>, -1),
   TofE(A, <<0, 1>>, 3, 1), TofE(A, <<3, 0>>, 1, 2), TofE(A, <<2>>, 3, 1), TofE(A, <<3, 1, 0>>, 2, 1),
   UI(A, 1, Reflect3), UM(A, <<2>>, Had2), UM(A, <<0, 1>>, Perm(<<3, 1, 2, 6, 5, 4>>)), UM(A, <<1, 2, 3>>, Perm(<<3, 1, 2, 6, 5, 4, 7, 8, 9, 10, 12, 11>>))}
C(s, hist) == <<MplE(A), MeasE(A), MplE(A)>>
=============================================================================
