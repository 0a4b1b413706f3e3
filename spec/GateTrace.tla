----------------------------- MODULE GateTrace -----------------------------
(* Histories of gate objects read from a file, run through Gates.            *)
EXTENDS Gates, Json, IOUtils
Cases == JsonDeserialize(IOEnv.QV_CASES).cases
VARIABLES i, l, st, obs
vars == <<i, l, st, obs>>
Init == i \in 1..Len(Cases) /\ l = 0 /\ st = [x \in {} |-> 0] /\ obs = <<>>
Step == /\ l < Len(Cases[i].ev)
        /\ LET d == GDo(st, Cases[i].ev[l + 1]) IN st' = d.st /\ obs' = Append(obs, d.o)
        /\ l' = l + 1 /\ UNCHANGED i
Emit == /\ l = Len(Cases[i].ev)
        /\ PrintT("QV " \o ToJson([i |-> i, obs |-> obs]))
        /\ l' = l + 1 /\ UNCHANGED <<i, st, obs>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
Inv == Cases[i].inv => ShelfOK(st)
=============================================================================
