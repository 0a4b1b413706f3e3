------------------------------- MODULE MC_C10 -------------------------------
(* Two circuits and the lists their callers share and change.                *)
EXTENDS Explore, Events
A == "a"
B == "b"
Shared == [t |-> "print", m |-> "amp", o |-> "O1"]
NewRef(c) == [NewO(c, <<2, 3>>, <<1>>, 6, Shared) EXCEPT !.qr = "dims", !.ir = "init"]
DefRef(c) == [NewRef(c) EXCEPT !.out = OutD]     \* with the output every circuit gets by itself
S == {<<ListE("dims", <<2, 3>>), ListE("init", <<1>>), ListE("regs", <<0, 1>>), ListE("ctl", <<0>>), x>> : x \in {NewRef(A), DefRef(A)}}
Has(s, c) == c \in DOMAIN s.circs
Placements(s, c) ==
  IF ~Has(s, c) THEN {}
  ELSE {XE(c, 1, 1), WithRef(CXE(c, <<>>, 1), "regs"), WithRef(TofE(c, <<>>, 1, 2), "ctl"), HE(c, 1)}
Looks(s, c) == IF ~Has(s, c) THEN {} ELSE {MeasE(c), Kept(RunE(c), c), ViewE(c, "state", "prob")}
(* only changes after which the lists still describe valid arguments *)
O(s, hist) ==
  Placements(s, A) \cup Placements(s, B) \cup Looks(s, A) \cup Looks(s, B)
  \cup (IF Has(s, B) \/ s.heap["dims"] # <<2, 3>> THEN {} ELSE {NewRef(B), DefRef(B)})
  \cup (IF Has(s, B) \/ ~Has(s, A) THEN {} ELSE {CloneE(B, A, "deep"), CloneE(B, A, "pickle")})
  \cup {SetE("regs", 1, 1 - s.heap["regs"][1]), SetE("init", 1, 0)}
  \cup (IF Len(s.heap["init"]) = 1 THEN {AppE("init", 2)} ELSE {})
  \cup (IF s.heap["dims"][2] = 3 THEN {SetE("dims", 2, 7), SetE("regs", 2, 1 - s.heap["regs"][2])} ELSE {})
  \cup (IF s.heap["ctl"] = <<0>> THEN {SetE("ctl", 1, 1)} ELSE {SetE("ctl", 1, 0)})
Finish(s, c) ==
  IF ~Has(s, c) THEN <<>>
  ELSE (IF s.circs[c].frozen THEN <<>> ELSE <<MeasE(c)>>) \o <<RunE(c), InfoE(c), StrE(c), LastE(c)>>
Last_(s, c) == IF Has(s, c) THEN <<LastE(c)>> ELSE <<>>
C(s, hist) == Last_(s, A) \o Last_(s, B) \o Finish(s, A) \o Finish(s, B) \o Last_(s, A) \o <<LookE("dims"), LookE("init"), LookE("regs"), LookE("ctl")>>
              \o (IF Has(s, A) THEN <<RunE(A)>> ELSE <<>>)
              \o (IF A \in DOMAIN s.given THEN <<AgainE(A)>> ELSE <<>>) \o (IF B \in DOMAIN s.given THEN <<AgainE(B)>> ELSE <<>>)
=============================================================================
