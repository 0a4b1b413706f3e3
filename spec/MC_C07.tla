------------------------------- MODULE MC_C07 -------------------------------
(* Every sequence of gates, then its inverse.                                *)
EXTENDS Explore, Events
A == "a"
S == {<<NewE(A, <<3, 2, 4>>, init, 12)>> : init \in {<<2, 1, 3>>, <<0, 1, 0>>}}
O(s, hist) ==
  {XE(A, 0, 1), XE(A, 2, -1), HE(A, 0), HE(A, 2), ZE(A, 0), ZE(A, 2), HE(A, 1),
   CXE(A, <<0, 1>>, 1), CXE(A, <<2, 0>>, 1), CXE(A, <<1, 2>>, -2),
   TofE(A, <<0, 1>>, 2, 1), TofE(A, <<2, 0>>, 1, 3)}
(* undoing one placement *)
Undo(s, e) ==
  CASE e.e \in {"x", "cx", "tof"} -> <<[e EXCEPT !.p = -e.p]>>
    [] e.e = "h" -> <<e, e, e>>                                    \* H^4 = 1
    [] e.e = "z" -> [i \in 1..(Dim(s.circs[A].dims, e.q) - 1) |-> e]  \* Z^d = 1
    [] OTHER -> <<>>
C(s, hist) ==
  FoldLeft(LAMBDA acc, e : Undo(s, e) \o acc, <<>>, hist) \o <<MeasE(A), RunE(A)>>
(* the model's own circuit is back where it began, exactly *)
s0 == st.circs[A]
Reversed == ph = "end" => s0.ket = BasisKet(s0.n, s0.init)
=============================================================================
