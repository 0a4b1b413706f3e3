----------------------------- MODULE TreeTrace -----------------------------
(* Gate lists recorded from the code, executed on inputs read from a file.   *)
EXTENDS Tree, Json, IOUtils
Cases == JsonDeserialize(IOEnv.QV_CASES).cases
VARIABLES i, ph
vars == <<i, ph>>
Init == i \in 1..Len(Cases) /\ ph = 0
WellFormed(c) == /\ Len(c.dims) = c.n
                 /\ \A j \in 1..Len(c.gates) : LET g == c.gates[j] IN g.c # g.t /\ g.c \in 0..(c.n - 1) /\ g.t \in 0..(c.n - 1)
Wrong(c) == IF ~WellFormed(c) THEN c.inputs
            ELSE SelectSeq(c.inputs, LAMBDA x : RunGates(c.dims, c.gates, x) # Expected(x))
Next == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED i
        /\ LET c == Cases[i]
               w == Wrong(c)
           IN PrintT("QV " \o ToJson([i |-> i, wrong |-> IF w = <<>> THEN <<>> ELSE <<w[1]>>,
                expected |-> IF c.runs = 1 THEN [j \in 1..Len(c.inputs) |-> Expected(c.inputs[j])] ELSE <<>>,
                quat |-> IF WellFormed(c) THEN Quaternary(c.dims, c.gates) ELSE -1, total |-> Len(c.gates),
                numbers |-> <<Number(c.dims, 2), Number(c.dims, 3), Number(c.dims, 4)>>,
                formulas |-> <<CTern(c.n), CQuat(c.n), CQubits(c.n), CQutrits(c.n), CQuquarts(c.n)>>]))
Spec == Init /\ [][Next]_vars
=============================================================================
