------------------------------- MODULE MC_C11 -------------------------------
(* Placing, measuring and running in every order.                            *)
EXTENDS Explore, Events
A == "a"
S == {<<NewE(A, <<2, 3>>, <<1, 0>>, 6)>>, <<NewE(A, <<3>>, <<2>>, 6)>>}
O(s, hist) ==
  {XE(A, 0, 1), HE(A, 0), MeasE(A), RunE(A), InfoE(A)}
  \cup (IF Len(s.circs[A].dims) = 2
        THEN {ZE(A, 1), CXE(A, <<0, 1>>, 1), TofE(A, <<1>>, 0, 1), UI(A, 1, Reflect3), PeekE(A)} ELSE {ZE(A, 0)})
C(s, hist) == <<LastE(A), RunE(A), MeasE(A), RunE(A), MeasE(A), XE(A, 0, 1), HE(A, 0), ZE(A, 0),
                LastE(A), RunE(A), LastE(A), InfoE(A), CfgE(A), PeekE(A)>>
=============================================================================
