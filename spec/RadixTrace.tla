----------------------------- MODULE RadixTrace -----------------------------
(* Index and successor of digit strings read from a file, of any size.       *)
EXTENDS Radix, Json, IOUtils
Cases == JsonDeserialize(IOEnv.QV_CASES).cases
VARIABLES i, ph
vars == <<i, ph>>
Init == i \in 1..Len(Cases) /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED i
        /\ LET c == Cases[i]
           IN /\ Assert(\A j \in 1..Len(c.b) : c.d[j] >= 0 /\ c.d[j] < c.b[j], "digits out of range")
              /\ PrintT("QV " \o ToJson([i |-> i, x |-> BigIndex(c.b, c.d), s |-> Step(c.b, c.d), y |-> BigIndex(c.b, Step(c.b, c.d))]))
Spec == Init /\ [][Next]_vars
=============================================================================
