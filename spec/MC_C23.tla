------------------------------- MODULE MC_C23 -------------------------------
(* Every history of a small directory: files written, broken, removed, and   *)
(* the script run over it, up to Bound steps.                                *)
EXTENDS Batch, Events, Json
CONSTANTS Bound
VARIABLES st, h, obs, ph
vars == <<st, h, obs, ph>>
Doc(gates) == <<NoteL("# one"), SizeL("qudit", 2), DeclL("qutrit", 0, 3), DeclL("qubit", 1, 2), BeginL>> \o gates \o <<EndL>>
A == [doc |-> Doc(<<GateL("X", "X", <<0>>, <<2>>), GateL("CX", "CX", <<0, 1>>, <<>>)>>), n |-> 1]
B == [doc |-> Doc(<<GateL("H", "H", <<1>>, <<>>)>>), n |-> 2]
Bad == [doc |-> Doc(<<GateL("X", "X", <<4>>, <<>>)>>), n |-> 1]
Junk == [doc |-> <<>>, n |-> 0]
Places == {<<"a", "txt">>, <<"sub/deep/a", "txt">>, <<"b.c", "txt">>, <<"a", "qasm">>}
Write(f, c) == [e |-> "write", stem |-> f[1], ext |-> f[2], doc |-> c.doc, n |-> c.n]
Run(m, b) == [e |-> "batch", m |-> m, b |-> b]
Begin == <<Write(<<"sub/deep/a", "txt">>, B), Write(<<"z", "txt">>, Bad)>>
RunAll(s, evs) ==
  FoldLeft(LAMBDA acc, e : LET d == Act(acc.st, e) IN [st |-> d.st, obs |-> Append(acc.obs, d.o)],
           [st |-> s, obs |-> <<>>], evs)
Init == LET r == RunAll(Nothing, Begin) IN st = r.st /\ h = [ev |-> Begin, len |-> 0] /\ obs = r.obs /\ ph = "go"
Offer == {Write(f, c) : f \in Places, c \in {A, Bad}} \cup {Write(<<"a", "txt">>, Junk), Write(<<"a", "txt">>, B)}
         \cup {[e |-> "del", stem |-> f[1], ext |-> f[2]] : f \in DOMAIN st.files}
         \cup {Run("txt", "numpy"), Run("txt", "sparse"), Run("qasm", "sparse"), [e |-> "records"]}
Call == /\ ph = "go" /\ h.len < Bound
        /\ \E e \in Offer :
             LET x == Act(st, e)
             IN st' = x.st /\ h' = [ev |-> Append(h.ev, e), len |-> h.len + 1] /\ obs' = Append(obs, x.o)
        /\ UNCHANGED ph
Closing == <<Run("txt", "numpy"), Run("qasm", "sparse"), [e |-> "records"]>>
Close == /\ ph = "go"
         /\ LET r == RunAll(st, Closing)
            IN st' = r.st /\ PrintT("QV " \o ToJson([ev |-> h.ev \o Closing, obs |-> obs \o r.obs]))
         /\ ph' = "end" /\ UNCHANGED <<h, obs>>
Next == Call \/ Close
Spec == Init /\ [][Next]_vars
Inv == BatchInv(st)
(* running the script never changes a circuit file, and only a run of the    *)
(* script changes records                                                   *)
Only == [][(h'.len = h.len + 1) =>
             LET e == h'.ev[Len(h'.ev)]
             IN IF e.e = "batch" THEN st'.files = st.files /\ \A k \in DOMAIN st.recs : k[2] # e.b => k \in DOMAIN st'.recs /\ st'.recs[k] = st.recs[k]
                ELSE st'.recs = st.recs /\ st'.any = st.any]_vars
=============================================================================
