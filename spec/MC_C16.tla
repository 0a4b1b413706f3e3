------------------------------- MODULE MC_C16 -------------------------------
(* QASM documents with every kind of gate line in many spellings.            *)
EXTENDS Explore, Events
A == "a"
Opening(decls) == <<LineE(NoteL("# a title")), LineE(SizeL("qudit", Len(decls)))>>
                  \o [i \in 1..Len(decls) |-> LineE(decls[i])] \o <<LineE(BeginL)>>
D1 == <<DeclL("qubit", 0, 2), DeclL("qutrit", 1, 3), DeclL("qudit", 2, 4)>>
D2 == <<DeclL("qudit", 0, 3), DeclL("qudit", 1, 2), DeclL("qubit", 2, 2)>>
S == {Opening(D1), Opening(D2)}
O(s, hist) == {LineE(l) : l \in {
    GateL("X", "X", <<0>>, <<>>), Px(GateL("X", "x", <<1>>, <<2>>), "X"), Cm(Px(GateL("X", "X", <<2>>, <<>>), ""), " # X x0"),
    GateL("X", "X", <<2>>, <<-1>>), Sep(GateL("X", "X", <<1>>, <<5>>), ", "), Ind(GateL("X", "X", <<0>>, <<>>), "    "),
    GateL("RX", "RX", <<0>>, <<>>), Sep(GateL("RX", "rx", <<2>>, <<>>), ", "), Cm(GateL("RX", "RX", <<1>>, <<>>), "  # half turn"),
    GateL("H", "H", <<1>>, <<>>), Px(GateL("H", "h", <<2>>, <<>>), "X"), Ind(GateL("H", "H", <<0>>, <<>>), "\t"),
    GateL("Z", "Z", <<1>>, <<>>), Px(GateL("Z", "z", <<0>>, <<>>), ""),
    GateL("CX", "CX", <<0, 1>>, <<>>), Sep(GateL("CX", "cx", <<2, 0>>, <<-1>>), ", "), Sep(Px(GateL("CX", "CNOT", <<1, 2>>, <<3>>), "X"), ","),
    Cm(GateL("CX", "cnot", <<2, 1>>, <<>>), "# 2"), GateL("CX", "Cx", <<0, 2>>, <<-5>>), Sep(GateL("CX", "CX", <<1, 0>>, <<1>>), "   "),
    GateL("Toffoli", "Toffoli", <<0, 1, 2>>, <<>>), Sep(GateL("Toffoli", "Toffoli", <<2, 0, 1>>, <<>>), ", "),
    Cm(Ind(Sep(GateL("Toffoli", "Toffoli", <<1, 0, 2>>, <<>>), ","), " "), " # x1"),
    NoteL(""), NoteL("  # X x0"), GateL("X", "X", <<3>>, <<>>), GateL("CX", "CX", <<1, 1>>, <<>>)}}
C(s, hist) == <<LineE(EndL), QasmE(A, 12, IF Len(hist) % 2 = 0 THEN "numpy" ELSE "spy", IF Len(hist) % 3 = 0 THEN "file" ELSE "text")>>
              \o (LET d == DoQasm([s EXCEPT !.doc = Append(@, EndL)], QasmE(A, 12, "", ""))
                  IN IF d.o.r = "E" THEN <<>> ELSE <<PeekE(A), RunE(A), InfoE(A), CfgE(A), StrE(A), XE(A, 0, 1), RunE(A)>>)
=============================================================================
