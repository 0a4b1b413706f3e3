------------------------------- MODULE MC_C04 -------------------------------
(* Toffoli with every ordered list of one to three controls.                 *)
EXTENDS Explore, Events
A == "a"
Shapes == {<<2, 2>>, <<2, 2, 2>>, <<3, 2, 4>>, <<2, 3, 2, 2>>}
S == UNION {{<<NewE(A, ds, DigitsOf(ix, ds), 1)>> : ix \in 0..(Prod(ds) - 1)} : ds \in Shapes}
Lists(n, t) ==
  LET rs == (0..(n - 1)) \ {t}
  IN {<<a>> : a \in rs}
     \cup {x \in {<<a, b>> : a \in rs, b \in rs} : x[1] # x[2]}
     \cup {x \in {<<a, b, c>> : a \in rs, b \in rs, c \in rs} : x[1] # x[2] /\ x[2] # x[3] /\ x[1] # x[3]}
O(s, hist) ==
  LET n == Len(s.circs[A].dims)
  IN UNION {{TofE(A, cs, t, p) : cs \in Lists(n, t), p \in {-1, 1, 2, 5}} : t \in 0..(n - 1)}
C(s, hist) == <<MeasE(A), RunE(A)>>
=============================================================================
