------------------------------ MODULE Overlap ------------------------------
(***************************************************************************)
(* Calls that take time: several threads, each making its own calls one     *)
(* after the other.  A call begins, takes effect at some moment, and ends;  *)
(* in between, the other threads begin and end theirs.                      *)
(*                                                                         *)
(* Threads touch different circuits, or only look at a measured one.  They  *)
(* may share everything that is passed to calls.                            *)
(*                                                                         *)
(* log is the schedule as a scheduler sees it: the thread that moves, at     *)
(* each beginning and each end.  The moment of the effect is not in it.     *)
(***************************************************************************)
EXTENDS QuDiet, Json

CONSTANTS Programs     \* set of [start, th, close]: events before, of the threads, after

VARIABLES p, st, pc, ph, res, obs, log
vars == <<p, st, pc, ph, res, obs, log>>

RunAll(s, evs) ==
  FoldLeft(LAMBDA acc, e : LET d == Do(acc.st, e)
                           IN [st |-> d.st, obs |-> Append(acc.obs, d.o)],
           [st |-> s, obs |-> <<>>], evs)

Threads == 1..Len(p.th)

(* what each thread would see if it were alone *)
Solo(s, th) == [t \in 1..Len(th) |-> RunAll(s, th[t]).obs]

Init == \E x \in Programs :
          LET r == RunAll(EmptyState, x.start)
          IN /\ p = [start |-> x.start, th |-> x.th, close |-> x.close,
                     first |-> r.obs, solo |-> Solo(r.st, x.th)]
             /\ st = r.st
             /\ pc = [t \in 1..Len(x.th) |-> 0]
             /\ ph = [t \in 1..Len(x.th) |-> "out"]
             /\ res = [t \in 1..Len(x.th) |-> 0]
             /\ obs = [t \in 1..Len(x.th) |-> <<>>]
             /\ log = <<>>

Begin(t) == /\ ph[t] = "out" /\ pc[t] < Len(p.th[t])
            /\ ph' = [ph EXCEPT ![t] = "in"] /\ log' = Append(log, t)
            /\ UNCHANGED <<p, st, pc, res, obs>>
Effect(t) == /\ ph[t] = "in"
             /\ LET d == Do(st, p.th[t][pc[t] + 1])
                IN st' = d.st /\ res' = [res EXCEPT ![t] = d.o]
             /\ ph' = [ph EXCEPT ![t] = "done"]
             /\ UNCHANGED <<p, pc, obs, log>>
End(t) == /\ ph[t] = "done"
          /\ obs' = [obs EXCEPT ![t] = Append(@, res[t])]
          /\ res' = [res EXCEPT ![t] = 0]
          /\ pc' = [pc EXCEPT ![t] = @ + 1]
          /\ ph' = [ph EXCEPT ![t] = "out"] /\ log' = Append(log, t)
          /\ UNCHANGED <<p, st>>

Flat(f) == FoldLeft(LAMBDA a, t : a \o f[t], <<>>, [t \in Threads |-> t])
Over == \A t \in Threads : ph[t] = "out" /\ pc[t] = Len(p.th[t])
Close == /\ Over
         /\ LET r == RunAll(st, p.close)
            IN PrintT("QV " \o ToJson([ev |-> p.start \o Flat(p.th) \o p.close,
                                       obs |-> p.first \o Flat(obs) \o r.obs,
                                       cuts |-> <<Len(p.start)>> \o [t \in Threads |-> Len(p.th[t])],
                                       sched |-> log]))
         /\ ph' = [t \in Threads |-> "end"]
         /\ UNCHANGED <<p, st, pc, res, obs, log>>

Next == Close \/ \E t \in Threads : Begin(t) \/ Effect(t) \/ End(t)
Spec == Init /\ [][Next]_vars

Inv == StateInv(st)
(* whatever overlaps, each thread sees what it would see alone *)
Alone == \A t \in Threads : obs[t] = SubSeq(p.solo[t], 1, pc[t])
=============================================================================
