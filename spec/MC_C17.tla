------------------------------- MODULE MC_C17 -------------------------------
(* Every short declaration section with Toffoli lines over it.               *)
EXTENDS Explore, Events
A == "a"
S == {<<LineE(NoteL("# a title")), LineE(SizeL(kw, n))>> : kw \in {"qubit", "qutrit", "qudit"}, n \in {1, 4}}
N(s) == Len(Decls(s.doc))
Begun(s) == \E i \in 1..Len(s.doc) : s.doc[i].k = "begin"
Triples(n) == {t \in (0..(n - 1)) \X (0..(n - 1)) \X (0..(n - 1)) : t[1] # t[2] /\ t[2] # t[3] /\ t[1] # t[3]}
O(s, hist) ==
  IF ~Begun(s)
  THEN (IF N(s) < 4
        THEN {LineE(l) : l \in {DeclL("qubit", N(s), 2), DeclL("qutrit", N(s), 3), DeclL("qudit", N(s), 4),
                                Cm(Ind(DeclL("qudit", N(s), 2), "  "), " # qudit x9 (9)")}} ELSE {})
       \cup (IF N(s) > 0 THEN {LineE(BeginL)} ELSE {})
  ELSE {LineE(GateL("Toffoli", "Toffoli", <<t[1], t[2], t[3]>>, <<>>)) : t \in Triples(N(s))}
       \cup {LineE(GateL("X", "X", <<q>>, <<>>)) : q \in IF N(s) = 3 THEN {} ELSE 0..(N(s) - 1)}
C(s, hist) ==
  IF N(s) = 0 THEN <<>>
  ELSE (IF Begun(s) THEN <<>> ELSE <<LineE(BeginL)>>) \o <<LineE(EndL), QasmE(A, 1, "default", "text"),
        StrE(A), CfgE(A), RunE(A), PeekE(A), InfoE(A)>>
=============================================================================
