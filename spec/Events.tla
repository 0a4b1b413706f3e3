------------------------------- MODULE Events -------------------------------
(* Shorthands for events and a stock of exact unitary matrices.             *)
EXTENDS QuDiet

OutA == [t |-> "print", m |-> "amp", o |-> "own"]
OutD == [t |-> "print", m |-> "amp", o |-> "none"]     \* the default output
OutP == [t |-> "print", m |-> "prob", o |-> "own"]
OutT == [t |-> "state", m |-> "amp", o |-> "own"]
OutTP == [t |-> "state", m |-> "prob", o |-> "own"]

NewE(c, dims, init, n) ==
  [e |-> "new", c |-> c, form |-> "list", q |-> dims, qr |-> "", init |-> init, ir |-> "", n |-> n, out |-> OutA]
NewO(c, dims, init, n, out) == [NewE(c, dims, init, n) EXCEPT !.out = out]
TupE(c, len, dim, init, n) == [NewE(c, <<len, dim>>, init, n) EXCEPT !.form = "tuple"]

XE(c, q, p) == [e |-> "x", c |-> c, q |-> q, p |-> p, d |-> 0]
HE(c, q) == [e |-> "h", c |-> c, q |-> q, d |-> 0]
ZE(c, q) == [e |-> "z", c |-> c, q |-> q, d |-> 0]
CXE(c, ct, p) == [e |-> "cx", c |-> c, ct |-> ct, p |-> p, d |-> 0, ref |-> ""]
TofE(c, cs, t, p) == [e |-> "tof", c |-> c, cs |-> cs, t |-> t, p |-> p, d |-> 0, ref |-> ""]
UE(c, qs, m, sf) == [e |-> "u", c |-> c, qs |-> qs, m |-> m, sf |-> sf, d |-> 0, ref |-> ""]
UIntE(c, q, m, sf) == [e |-> "u", c |-> c, qs |-> <<q>>, m |-> m, sf |-> sf, d |-> 0, ref |-> "", form |-> "int"]
WithDim(ev, d) == [ev EXCEPT !.d = d]
WithRef(ev, l) == [ev EXCEPT !.ref = l]

MeasE(c) == [e |-> "meas", c |-> c]
RunE(c)  == [e |-> "run", c |-> c]
CfgE(c)  == [e |-> "cfg", c |-> c]
InfoE(c) == [e |-> "info", c |-> c]
StrE(c)  == [e |-> "str", c |-> c]
MplE(c)  == [e |-> "mpl", c |-> c]
PeekE(c) == [e |-> "peek", c |-> c]
ShowE(c) == [e |-> "show", c |-> c]
ListE(l, v) == [e |-> "list", l |-> l, v |-> v]
SetE(l, i, v) == [e |-> "set", l |-> l, i |-> i, v |-> v]
AppE(l, v) == [e |-> "app", l |-> l, v |-> v]
Kept(ev, a) == ev @@ [as |-> a]
AgainE(a) == [e |-> "again", as |-> a]
SpoilE(a) == [e |-> "spoil", as |-> a]
ViewE(c, t, m) == [e |-> "view", c |-> c, t |-> t, m |-> m]
LastE(c) == [e |-> "last", c |-> c]
CloneE(c, of, how) == [e |-> "clone", c |-> c, of |-> of, how |-> how]
LookE(l) == [e |-> "look", l |-> l]

(* matrices: entries are sums of <<c, e>> = c * w_n^e; all divided by the    *)
(* square root of prod p^e over sf                                          *)
R(c) == IF c = 0 THEN <<>> ELSE <<<<c, 0>>>>
RealMat(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> R(m[i][j])]]
PermMat(p) == [i \in 1..Len(p) |-> [j \in 1..Len(p) |-> R(IF p[j] = i THEN 1 ELSE 0)]]
Phased(m, f) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |->
                   [k \in 1..Len(m[i][j]) |-> <<m[i][j][k][1], m[i][j][k][2] + f[i]>>]]]

Rot345 == [m |-> RealMat(<<<<3, -4>>, <<4, 3>>>>), sf |-> <<<<5, 2>>>>]
Had2   == [m |-> RealMat(<<<<1, 1>>, <<1, -1>>>>), sf |-> <<<<2, 1>>>>]
(* (1/sqrt 2) [[1, i], [i, 1]], needs 4 | n *)
SqrtX(n) == [m |-> <<<<R(1), <<<<1, n \div 4>>>>>>, <<<<<<1, n \div 4>>>>, R(1)>>>>, sf |-> <<<<2, 1>>>>]
(* (1/2) [[1+i, 1-i], [1-i, 1+i]] *)
HalfX(n) == LET a == <<<<1, 0>>, <<1, n \div 4>>>>
                b == <<<<1, 0>>, <<-1, n \div 4>>>>
            IN [m |-> <<<<a, b>>, <<b, a>>>>, sf |-> <<<<2, 2>>>>]
(* (1/sqrt 2) [[1, 1], [i, -i]]: not symmetric, not hermitian *)
NonSym(n) == [m |-> <<<<R(1), R(1)>>, <<<<<<1, n \div 4>>>>, <<<<-1, n \div 4>>>>>>>>, sf |-> <<<<2, 1>>>>]
Perm(p) == [m |-> PermMat(p), sf |-> <<>>]
PhasedPerm(p, f) == [m |-> Phased(PermMat(p), f), sf |-> <<>>]
(* 3 x 3 real: reflection (1/3)[[1,-2,-2],[-2,1,-2],[-2,-2,1]] times a cycle *)
Reflect3 == [m |-> RealMat(<<<<-2, 1, -2>>, <<-2, -2, 1>>, <<1, -2, -2>>>>), sf |-> <<<<3, 2>>>>]
(* not unitary *)
Bad2 == [m |-> RealMat(<<<<1, 1>>, <<0, 1>>>>), sf |-> <<>>]
Double2 == [m |-> RealMat(<<<<2, 0>>, <<0, 2>>>>), sf |-> <<>>]
UM(c, qs, a) == UE(c, qs, a.m, a.sf)
UI(c, q, a) == UIntE(c, q, a.m, a.sf)

(* QASM *)
LineE(l) == [e |-> "line", l |-> l]
QasmE(c, n, be, via) == [e |-> "qasm", c |-> c, n |-> n, be |-> be, via |-> via]
NoteL(t) == [k |-> "note", t |-> t]
SizeL(kw, n) == [k |-> "size", kw |-> kw, n |-> n]
DeclL(kind, i, d) == [k |-> "decl", kind |-> kind, i |-> i, d |-> d, ind |-> "", cm |-> ""]
BeginL == [k |-> "begin"]
EndL == [k |-> "end"]
GateL(g, w, qs, p) == [k |-> "gate", g |-> g, w |-> w, qs |-> qs, px |-> [i \in 1..Len(qs) |-> "x"],
                       p |-> p, sep |-> " ", ind |-> "", cm |-> ""]
Px(l, s) == [l EXCEPT !.px = [i \in 1..Len(l.qs) |-> s]]
Sep(l, s) == [l EXCEPT !.sep = s]
Ind(l, s) == [l EXCEPT !.ind = s]
Cm(l, s) == [l EXCEPT !.cm = s]
=============================================================================
