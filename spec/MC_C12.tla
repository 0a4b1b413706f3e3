------------------------------- MODULE MC_C12 -------------------------------
(* Ill-formed requests between good ones, and ill-formed constructions.      *)
EXTENDS Explore, Events
A == "a"
D == <<2, 3, 2>>
BadNew(form) == [NewE("b", <<>>, <<>>, 1) EXCEPT !.form = "bad"] @@ [bad |-> form]
BadNews ==
  {<<BadNew(f)>> : f \in {"int", "none", "str", "set", "float", "range", "dict"}}
  \cup {<<NewE("b", ds, <<>>, 1)>> : ds \in {<<1>>, <<0>>, <<-2>>, <<2, 1>>, <<1, 2>>, <<3, 0, 2>>, <<2, 2, -3>>}}
  \cup {<<TupE("b", 2, d, <<>>, 1)>> : d \in {1, 0, -1}}
  \cup {<<NewE("b", <<2, 3>>, i, 1)>> : i \in {<<2>>, <<0, 3>>, <<-1>>, <<0, -1>>, <<1, 2, 0>>, <<0, 0, 0, 0>>, <<1, -3>>, <<5, 0>>}}
  \cup {<<TupE("b", 2, 3, i, 1)>> : i \in {<<3>>, <<0, 3>>, <<0, 0, 0>>, <<-2, 0>>}}
Good == NewE(A, D, <<1, 2, 0>>, 12)
S == {<<Good>>} \cup {Append(b, Good) : b \in BadNews}
OutRegs == {-4, -3, -1, 3, 4, 7}
BadGates ==
  {XE(A, q, 1) : q \in OutRegs} \cup {HE(A, q) : q \in OutRegs} \cup {ZE(A, q) : q \in OutRegs}
  \cup {WithDim(XE(A, 0, 1), 3), WithDim(XE(A, 1, 1), 2), WithDim(HE(A, 0), 4), WithDim(HE(A, 1), 2),
        WithDim(ZE(A, 1), 2), WithDim(ZE(A, 2), 3), WithDim(XE(A, 1, 1), -3), WithDim(HE(A, 2), 1)}
  \cup {CXE(A, <<q, 1>>, 1) : q \in OutRegs} \cup {CXE(A, <<0, q>>, 1) : q \in OutRegs}
  \cup {CXE(A, <<q, q>>, 1) : q \in 0..2} \cup {CXE(A, <<3, 4>>, 1), CXE(A, <<-1, -2>>, 1)}
  \cup {TofE(A, <<0, q>>, 2, 1) : q \in OutRegs} \cup {TofE(A, <<0, 1>>, q, 1) : q \in OutRegs}
  \cup {TofE(A, <<q>>, 1, 1) : q \in OutRegs}
  \cup {TofE(A, <<0, 1>>, 1, 1), TofE(A, <<2, 0>>, 2, 1), TofE(A, <<1>>, 1, 1), TofE(A, <<0, 1, 2>>, 0, 1)}
  \cup {UI(A, q, Had2) : q \in OutRegs} \cup {UM(A, <<q>>, Had2) : q \in OutRegs}
  \cup {UM(A, <<0, 2>>, Perm(<<2, 1, 4, 3>>)), UM(A, <<2, 3>>, Perm(<<2, 1, 4, 3>>)), UM(A, <<-1, 0>>, Perm(<<2, 1, 4, 3>>))}
  \cup {WithDim(UI(A, 0, Had2), 3), WithDim(UI(A, 1, Reflect3), 2)}
GoodGates ==
  {XE(A, 1, -4), WithDim(HE(A, 1), 3), WithDim(ZE(A, 0), 2), CXE(A, <<2, 0>>, 7), CXE(A, <<0, 1>>, 0), TofE(A, <<2, 1>>, 0, 1),
   TofE(A, <<1>>, 2, -1), UM(A, <<1, 2>>, Perm(<<3, 1, 2, 6, 5, 4>>)), WithDim(UI(A, 1, Reflect3), 3)}
O(s, hist) ==
  LET bads == {i \in 1..Len(hist) : hist[i] \in BadGates}
  IN GoodGates \cup (IF bads = {} /\ (hist[1].c = A) THEN BadGates ELSE {}) \cup (IF s.circs[A].frozen THEN {} ELSE {MeasE(A)})
C(s, hist) == (IF s.circs[A].frozen THEN <<>> ELSE <<CfgE(A), MeasE(A)>>) \o <<RunE(A), InfoE(A), PeekE(A), StrE(A)>>
=============================================================================
