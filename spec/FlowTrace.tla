----------------------------- MODULE FlowTrace -----------------------------
(* Histories of pushes read from a file, run through Flow.                   *)
EXTENDS Flow, Json, IOUtils
Cases == JsonDeserialize(IOEnv.QV_CASES).cases
VARIABLES i, l, st, obs
vars == <<i, l, st, obs>>
Init == i \in 1..Len(Cases) /\ l = 0 /\ st = Empty /\ obs = <<>>
Step == /\ l < Len(Cases[i].ev)
        /\ LET d == Do(st, Cases[i].ev[l + 1]) IN st' = d.st /\ obs' = Append(obs, d.o)
        /\ l' = l + 1 /\ UNCHANGED i
Emit == /\ l = Len(Cases[i].ev)
        /\ PrintT("QV " \o ToJson([i |-> i, obs |-> obs]))
        /\ l' = l + 1 /\ UNCHANGED <<i, st, obs>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
Inv == MomentsOK(st) /\ (Cases[i].inv => FlowInv(st))
=============================================================================
