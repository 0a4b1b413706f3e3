------------------------------- MODULE MC_C18 -------------------------------
(* The odometer of every short list of bases, run from zero to the end.      *)
EXTENDS Radix, Json
CONSTANTS Bound
VARIABLES b, d, i
vars == <<b, d, i>>
Lists == UNION {[1..k -> 1..4] : k \in 1..Bound} \cup [1..(Bound + 1) -> 2..3]
         \cup {<<10, 3>>, <<2, 17>>, <<16, 5, 2>>, <<3, 11, 3>>, <<100>>, <<300>>, <<130, 2>>, <<2, 260>>, <<7, 7, 7>>, <<2, 2, 2, 2, 2, 2, 2, 2>>}
Init == b \in Lists /\ d = Zeros(b) /\ i = 0
Turn == /\ d # Last_(b)
        /\ d' = Step(b, d) /\ i' = i + 1 /\ UNCHANGED b
Next == Turn
Spec == Init /\ [][Next]_vars
Emitted == PrintT("QV " \o ToJson([b |-> b, d |-> d, i |-> i]))
(* digits and index determine each other; both representations agree *)
Agree == Emitted /\ Index(b, d) = i /\ Value(BigIndex(b, d)) = i
InRange == \A j \in 1..Len(b) : d[j] >= 0 /\ d[j] < b[j]
Ordered == [][LexLess(d, d') /\ i' = i + 1]_vars
Ends == d = Last_(b) => i + 1 = FoldLeft(LAMBDA a, x : a * x, 1, b)
=============================================================================
