------------------------------- MODULE MC_C13 -------------------------------
(* (n, d) and the list of n times d side by side; initial states.            *)
EXTENDS Explore, Events
A == "a"
B == "b"
Inits(n, d) == UNION {[1..k -> 0..(d - 1)] : k \in 0..n}
Outs == {OutA, OutD, OutTP}
S == UNION {UNION {{<<[TupE(A, nd[1], nd[2], i, 12) EXCEPT !.out = o], NewO(B, [x \in 1..nd[1] |-> nd[2]], i, 12, o)>> :
              i \in Inits(nd[1], nd[2])} : o \in Outs} :
              nd \in {<<1, 2>>, <<1, 4>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<2, 10>>, <<4, 2>>}}
     \cup UNION {{<<NewE(A, ds, i, 12), NewE(B, ds, i, 12)>> :
              i \in UNION {{SubSeq(DigitsOf(ix, ds), 1, k) : ix \in 0..(Prod(ds) - 1)} : k \in 0..Len(ds)}} :
              ds \in {<<2, 3>>, <<4, 2, 3>>, <<2, 2, 3>>}}
(* the same gate on both, the second copy right after the first *)
Twin(e) == [e EXCEPT !.c = B]
O(s, hist) ==
  LET n == Len(s.circs[A].dims)
      d == s.circs[A].dims
      last == hist[Len(hist)]
  IN IF last.c = A /\ last.e # "new" THEN {Twin(last)}
     ELSE IF Len(hist) > 2 THEN {}
     ELSE {XE(A, n - 1, 1), XE(A, 0, -1)} \cup (IF 12 % d[1] = 0 THEN {HE(A, 0)} ELSE {})
          \cup (IF n > 1 THEN {CXE(A, <<0, n - 1>>, 1), CXE(A, <<n - 1, 0>>, 1), TofE(A, <<n - 1>>, 0, 1)} ELSE {})
Finish(c) == <<PeekE(c), MeasE(c), RunE(c), CfgE(c), InfoE(c), StrE(c)>>
C(s, hist) == Finish(A) \o Finish(B)
=============================================================================
