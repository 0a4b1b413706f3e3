------------------------------- MODULE MC_C24 -------------------------------
(* Two gates of a stock on each list of registers, in every order, asked     *)
(* everything, in turns and again.                                          *)
EXTENDS Gates, Json, Events
CONSTANTS Bound
VARIABLES st, h, obs, ph
vars == <<st, h, obs, ph>>
N == 12
I(q) == [k |-> "I", q |-> q]
S(q, s) == [k |-> "S", q |-> q, s |-> s]
M(q) == [k |-> "M", q |-> q]
X(q, p) == [k |-> "X", q |-> q, p |-> p]
H(q) == [k |-> "H", q |-> q]
Z(q) == [k |-> "Z", q |-> q]
CX(c, t, p) == [k |-> "CX", ct |-> <<c, t>>, p |-> p]
T(cs, t, p) == [k |-> "T", cs |-> cs, t |-> t, p |-> p]
U(qs, a) == [k |-> "U", qs |-> qs, m |-> a.m, sf |-> a.sf]
DimsList == <<<<2, 3>>, <<3, 2, 2>>, <<4, 3>>>>
Single(ds) ==
  UNION {{I(q), M(q), H(q), Z(q), X(q, 1), X(q, -1), X(q, 2), X(q, ds[q + 1] * 4 - 1)} : q \in Regs(ds)}
  \cup {S(q, s) : q \in {0, Len(ds) - 1}, s \in {0, 1}}
Double(ds) ==
  UNION {{CX(c, t, 1), CX(c, t, -1), T(<<c>>, t, 2)} : <<c, t>> \in {<<0, 1>>, <<1, 0>>, <<0, Len(ds) - 1>>, <<Len(ds) - 1, 0>>}}
  \cup (IF Len(ds) = 3 THEN {T(<<0, 1>>, 2, 1), T(<<2, 0>>, 1, -1), T(<<2, 1>>, 0, 5)} ELSE {})
Own(ds) == {U(<<q>>, a) : q \in {q \in Regs(ds) : ds[q + 1] = 2}, a \in {NonSym(12), SqrtX(12)}}
           \cup {U(<<0>>, Bad2), U(<<0, 1>>, Had2)}
           \cup {U(<<q>>, Reflect3) : q \in {q \in Regs(ds) : ds[q + 1] = 3}}
           \cup (IF Prod(SubSeq(ds, 1, 2)) = 6 THEN {U(<<0, 1>>, PhasedPerm(<<3, 1, 2, 6, 4, 5>>, <<0, 1, 2, 3, 4, 5>>))} ELSE {})
Stock(ds) == Single(ds) \cup Double(ds) \cup Own(ds)
Make(g, ds, o) == [e |-> "make", g |-> g, dims |-> ds, n |-> N, op |-> o]
Ask(g, w) == [e |-> "ask", g |-> g, w |-> w]
Smear(g) == [e |-> "smear", g |-> g]
Order == <<"unitary", "acting_on", "is_controlled", "is_single_qudit", "unitary">>
Asks(s, g) == LET ws == SelectSeq(Order, LAMBDA w : w \in Whats(s[g].op)) IN [i \in 1..Len(ws) |-> Ask(g, ws[i])]
RunAll(s, evs) ==
  FoldLeft(LAMBDA acc, e : LET d == GDo(acc.st, e) IN [st |-> d.st, obs |-> Append(acc.obs, d.o)],
           [st |-> s, obs |-> <<>>], evs)
Init == /\ st = [x \in {} |-> 0] /\ obs = <<>> /\ ph = "go"
        /\ \E d \in 1..Len(DimsList) : h = [ev |-> <<>>, d |-> d, len |-> 0]
Call == /\ ph = "go" /\ h.len < Bound
        /\ \E o \in Stock(DimsList[h.d]) :
             LET e == Make("g" \o ToString(h.len), DimsList[h.d], o)
                 x == GDo(st, e)
             IN st' = x.st /\ h' = [h EXCEPT !.ev = Append(@, e), !.len = @ + 1] /\ obs' = Append(obs, x.o)
        /\ UNCHANGED ph
Closing(s) ==
  LET names == SetToSortSeq(DOMAIN s, LAMBDA a, b : a = "g0" /\ b # "g0")
  IN FoldLeft(LAMBDA acc, g : acc \o Asks(s, g), <<>>, names)
     \o (IF s["g0"].op.k \in {"S", "M"} \/ Wrong(s["g0"]) THEN <<>> ELSE <<Smear("g0")>>)
     \o [i \in 1..Len(names) |-> Ask(names[i], "unitary")]
Close == /\ ph = "go" /\ h.len = Bound
         /\ LET c == Closing(st)
                r == RunAll(st, c)
            IN st' = r.st /\ PrintT("QV " \o ToJson([ev |-> h.ev \o c, obs |-> obs \o r.obs]))
         /\ ph' = "end" /\ UNCHANGED <<h, obs>>
Next == Call \/ Close
Spec == Init /\ [][Next]_vars
Inv == h.len = 1 => ShelfOK(st)
(* asking changes nothing *)
Kept_ == [][ph' = "end" => st' = st]_vars
=============================================================================
