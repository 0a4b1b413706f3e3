------------------------------- MODULE MC_C09 -------------------------------
(* Looking at a circuit in every way at every point of its life.             *)
EXTENDS Explore, Events
A == "a"
S == {<<NewE(A, <<2, 3>>, <<1, 2>>, 6)>>}
Drawable(s) == Len(s.circs[A].layers) > 1
O(s, hist) ==
  {HE(A, 1), XE(A, 0, 1), CXE(A, <<0, 1>>, 2), MeasE(A), RunE(A), CfgE(A), InfoE(A), StrE(A), ShowE(A), PeekE(A), LastE(A)}
  \cup {Kept(RunE(A), "r"), Kept(InfoE(A), "i")} \cup {SpoilE(x) : x \in DOMAIN s.given}
  \cup (IF Drawable(s) THEN {MplE(A)} ELSE {})
C(s, hist) ==
  (IF s.circs[A].frozen THEN <<>> ELSE <<ZE(A, 1), MeasE(A)>>)
  \o <<RunE(A), InfoE(A), RunE(A), StrE(A), CfgE(A), PeekE(A), LastE(A), RunE(A)>>
  \o (IF "r" \in DOMAIN s.given THEN <<AgainE("r")>> ELSE <<>>) \o (IF "i" \in DOMAIN s.given THEN <<AgainE("i")>> ELSE <<>>)
=============================================================================
