------------------------------- MODULE MC_C02 -------------------------------
(* X with every increment from -d-1 to 2d+1, H and Z, on a register of every *)
(* dimension 2..MaxD in every level, at different places among others; then  *)
(* one more gate, so that phases become visible.                            *)
EXTENDS Explore, Events
CONSTANT MaxD
A == "a"
Places(d) == {<<<<d>>, 0>>, <<<<2, d>>, 1>>, <<<<d, 3>>, 0>>, <<<<3, d, 2>>, 1>>}
S == UNION {UNION {{<<NewE(A, pl[1], [i \in 1..Len(pl[1]) |-> IF i = pl[2] + 1 THEN j ELSE pl[1][i] - 1], d)>> :
                      j \in 0..(d - 1)} : pl \in Places(d)} : d \in 2..MaxD}
(* the register under test is the one whose dimension is the root's order *)
Qs(s) == {q \in Regs(s.circs[A].dims) : s.circs[A].n % Dim(s.circs[A].dims, q) = 0}
O(s, hist) ==
  LET d(q) == Dim(s.circs[A].dims, q)
  IN UNION {{HE(A, q), ZE(A, q)}
            \cup {XE(A, q, p) : p \in IF Len(hist) = 1 THEN (-d(q) - 1)..(2 * d(q) + 1) ELSE {1, -1}}
            \cup (IF Len(hist) = 1 THEN {WithDim(HE(A, q), d(q)), WithDim(ZE(A, q), d(q)), WithDim(XE(A, q, 1), d(q))} ELSE {})
            : q \in Qs(s)}
C(s, hist) == <<MeasE(A), RunE(A)>>
=============================================================================
