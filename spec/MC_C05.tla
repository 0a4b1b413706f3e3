------------------------------- MODULE MC_C05 -------------------------------
(* Custom gates, good and bad, on one, two and three neighbouring registers. *)
EXTENDS Explore, Events
A == "a"
D == <<2, 3, 2>>
S == {<<NewE(A, D, DigitsOf(ix, D), 12)>> : ix \in 0..11}
Ph6 == PhasedPerm(<<3, 1, 2, 6, 4, 5>>, <<0, 1, 2, 3, 4, 5>>)
BadSize == Perm(<<2, 1, 3>>)
Upper3 == [m |-> RealMat(<<<<1, 0, 1>>, <<0, 1, 0>>, <<0, 0, 1>>>>), sf |-> <<>>]
Proj2 == [m |-> RealMat(<<<<1, 0>>, <<0, 0>>>>), sf |-> <<>>]
HalfPh == [m |-> <<<<R(1), R(1)>>, <<R(1), <<<<1, 3>>>>>>>>, sf |-> <<<<2, 1>>>>]
HalfProj == [m |-> RealMat(<<<<1, 1>>, <<1, 1>>>>), sf |-> <<<<2, 2>>>>]     \* its own square
Thirds3 == [m |-> RealMat(<<<<1, 1, 1>>, <<1, 1, 1>>, <<1, 1, 1>>>>), sf |-> <<<<3, 2>>>>]
RowsUnit == [m |-> RealMat(<<<<3, 4>>, <<4, 3>>>>), sf |-> <<<<5, 2>>>>]       \* unit rows and columns
Nearly == [m |-> RealMat(<<<<1000, 0>>, <<0, 1001>>>>), sf |-> <<<<2, 6>>, <<5, 6>>>>]
OrthC == [m |-> <<<<R(5), <<<<4, 3>>>>>>, <<<<<<-4, 3>>>>, R(5)>>>>, sf |-> <<<<3, 2>>>>]  \* U U^T = 1
Wide2 == [m |-> RealMat(<<<<0, 1, 0>>, <<1, 0, 0>>>>), sf |-> <<>>]               \* orthonormal rows, not square
Tall2 == [m |-> RealMat(<<<<1, 0>>, <<0, 1>>, <<0, 0>>>>), sf |-> <<>>]
Nil2 == [m |-> RealMat(<<<<0, 1>>, <<0, 0>>>>), sf |-> <<>>]
Zero2 == [m |-> RealMat(<<<<0, 0>>, <<0, 0>>>>), sf |-> <<>>]
Twice == [m |-> RealMat(<<<<1, 1>>, <<1, 1>>>>), sf |-> <<<<2, 1>>>>]
Good == {UI(A, 0, NonSym(12)), UM(A, <<2>>, SqrtX(12)), UI(A, 2, HalfX(12)), UI(A, 0, Rot345),
         UI(A, 1, Reflect3), UM(A, <<1>>, PhasedPerm(<<2, 3, 1>>, <<4, 0, 1>>)),
         UM(A, <<0, 1>>, Ph6), UM(A, <<1, 2>>, Ph6),
         UM(A, <<0, 1, 2>>, PhasedPerm(<<2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 1>>, <<0, 3, 1, 5, 7, 2, 4, 6, 8, 10, 9, 11>>))}
BadOnes == {UI(A, 0, Bad2), UI(A, 2, Double2), UM(A, <<0>>, Proj2), UI(A, 0, HalfPh),
            UI(A, 1, Upper3), UI(A, 0, BadSize), UM(A, <<1, 2>>, BadSize), UM(A, <<0, 1>>, Had2),
            UI(A, 1, Had2), UI(A, 0, HalfProj), UI(A, 1, Thirds3), UM(A, <<2>>, RowsUnit),
            UI(A, 2, Nearly), UI(A, 0, OrthC), UM(A, <<0>>, Nil2), UI(A, 2, Zero2), UI(A, 0, Twice), UI(A, 0, Wide2), UM(A, <<2>>, Wide2), UI(A, 0, Tall2), UI(A, 1, Tall2)}
O(s, hist) == Good \cup (IF s.circs[A].bad THEN {} ELSE BadOnes) \cup {HE(A, 1), HE(A, 0), CXE(A, <<0, 2>>, 1)}
C(s, hist) == <<MeasE(A), RunE(A)>>
=============================================================================
