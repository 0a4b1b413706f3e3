------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Runs histories of calls (read from a file) through the specification and *)
(* writes, for each event, what the specification says the caller observes. *)
(* One behaviour per case; one step per event; invariants checked in every  *)
(* state (StateInv only for cases that ask for it: it is expensive).        *)
(***************************************************************************)
EXTENDS QuDiet, Json, IOUtils

Input == JsonDeserialize(IOEnv.QV_CASES)
Cases == Input.cases

VARIABLES i, l, st, obs
vars == <<i, l, st, obs>>

Init == /\ i \in 1..Len(Cases)
        /\ l = 0 /\ st = EmptyState /\ obs = <<>>

Step == /\ l < Len(Cases[i].ev)
        /\ LET d == Do(st, Cases[i].ev[l + 1])
           IN st' = d.st /\ obs' = Append(obs, d.o)
        /\ l' = l + 1
        /\ UNCHANGED i

Emit == /\ l = Len(Cases[i].ev)
        /\ PrintT("QV " \o ToJson([i |-> i, obs |-> obs]))
        /\ l' = l + 1
        /\ UNCHANGED <<i, st, obs>>

Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

Inv == Cases[i].inv => StateInv(st)
=============================================================================
