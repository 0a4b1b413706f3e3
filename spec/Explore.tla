------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* All histories of calls up to a bound, as a tree: a state is a history    *)
(* with what the specification says each call returns.  Every history is    *)
(* closed with Closing(st, h) and printed; the harness replays it on the     *)
(* code.  StateInv is checked in every state.                               *)
(***************************************************************************)
EXTENDS QuDiet, Json

CONSTANTS Starts,          \* set of sequences of events
          Offers(_, _),    \* state, history -> set of next events
          Closing(_, _),   \* state, history -> sequence of events
          Bound            \* length of a history after its start

VARIABLES st, h, obs, ph   \* ph: "go" while the history grows, "end" when printed
vars == <<st, h, obs, ph>>

RunAll(s, evs) ==
  FoldLeft(LAMBDA acc, e : LET d == Do(acc.st, e)
                           IN [st |-> d.st, obs |-> Append(acc.obs, d.o)],
           [st |-> s, obs |-> <<>>], evs)

Init == \E s \in Starts :
          LET r == RunAll(EmptyState, s)
          IN st = r.st /\ h = [ev |-> s, len |-> 0] /\ obs = r.obs /\ ph = "go"

Call == /\ ph = "go" /\ h.len < Bound
        /\ \E e \in Offers(st, h.ev) :
             LET d == Do(st, e)
             IN /\ st' = d.st
                /\ h' = [ev |-> Append(h.ev, e), len |-> h.len + 1]
                /\ obs' = Append(obs, d.o)
        /\ UNCHANGED ph

Close == /\ ph = "go"
         /\ LET evs == Closing(st, h.ev)
                r   == RunAll(st, evs)
            IN /\ st' = r.st
               /\ PrintT("QV " \o ToJson([ev |-> h.ev \o evs, obs |-> obs \o r.obs]))
         /\ ph' = "end"
         /\ UNCHANGED <<h, obs>>

Next == Call \/ Close
Spec == Init /\ [][Next]_vars

Inv == StateInv(st)

(* observing never changes anything; a measured circuit never changes;       *)
(* an event about one circuit leaves all others alone; nothing but its       *)
(* caller changes what was returned                                         *)
Isolation ==
  [][ \A x \in DOMAIN st.circs :
        (ph' = "go" /\ h'.len = h.len + 1) =>
          LET e == h'.ev[Len(h'.ev)]
          IN /\ (e.e \in Watching \cup AboutNone => st'.circs = st.circs)
             /\ (st.circs[x].frozen /\ e.e # "view" /\ ~(e.e \in {"new", "clone"} /\ e.c = x) => st'.circs[x] = st.circs[x])
             /\ (e.e \notin AboutNone \cup {"view"} /\ e.c # x => st'.circs[x] = st.circs[x])
             /\ (e.e = "view" => /\ [st'.circs[x] EXCEPT !.out = 0] = [st.circs[x] EXCEPT !.out = 0]
                                 /\ (e.c # x /\ ~SameOutput(st.circs[x], st.circs[e.c]) => st'.circs[x] = st.circs[x]))
    ]_vars
Held ==
  [][ \A x \in DOMAIN st.given \cap DOMAIN st'.given :
        (ph' = "go" /\ h'.len = h.len + 1) =>
          LET e == h'.ev[Len(h'.ev)]
          IN st'.given[x] = st.given[x] \/ (e.e \in Watching /\ "as" \in DOMAIN e /\ e.as = x)
    ]_vars
=============================================================================
