-------------------------------- MODULE Kets --------------------------------
(***************************************************************************)
(* Mixed-radix registers, exact state vectors, and what each gate does.     *)
(*                                                                         *)
(* Register q (0-based) has dimension dims[q + 1].  A basis state is the    *)
(* sequence of its digits, register 0 first.                                *)
(*                                                                         *)
(* A ket is [n, amp, den]: amp maps the basis states of non-zero amplitude  *)
(* to elements of Z[w_n]; den maps primes to exponents; the amplitude of x  *)
(* is amp[x] / sqrt(prod p^den[p]).  `Reduce` keeps the pair canonical.     *)
(***************************************************************************)
EXTENDS Cyclo

(* ---- registers ---- *)
Regs(dims) == 0 .. (Len(dims) - 1)
Dim(dims, q) == dims[q + 1]
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)

IndexOf(ds, dims) ==                                \* digits -> index (Horner)
  FoldLeft(LAMBDA acc, i : acc * dims[i] + ds[i], 0, Iota(Len(dims)))

DigitsOf(ix, dims) ==                               \* index -> digits
  LET n == Len(dims)
      step(acc, i) == LET b == dims[n + 1 - i]
                      IN [v |-> acc.v \div b, ds |-> <<acc.v % b>> \o acc.ds]
  IN FoldLeft(step, [v |-> ix, ds |-> <<>>], Iota(n)).ds

LexLess(a, b) ==
  \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

(* ---- denominators ---- *)
RECURSIVE FactorFrom(_, _)
FactorFrom(k, p) ==
  IF k = 1 THEN <<>>
  ELSE IF p * p > k THEN <<k>>
  ELSE IF k % p = 0 THEN <<p>> \o FactorFrom(k \div p, p)
  ELSE FactorFrom(k, p + 1)
PrimeFactors(k) == FactorFrom(k, 2)

DenOne == [p \in {} |-> 0]
DenPut(den, p, e) ==
  [x \in (DOMAIN den) \cup {p} |-> (IF x \in DOMAIN den THEN den[x] ELSE 0) + (IF x = p THEN e ELSE 0)]
DenMul(den, k) == FoldLeft(LAMBDA d, p : DenPut(d, p, 1), den, PrimeFactors(k))
DenMulPairs(den, pes) == FoldLeft(LAMBDA d, pe : DenPut(d, pe[1], pe[2]), den, pes)
DenSeq(den) == LET ps == SetToSortSeq({p \in DOMAIN den : den[p] # 0}, <)
               IN [i \in 1..Len(ps) |-> <<ps[i], den[ps[i]]>>]
DenInt(den) == FoldLeft(LAMBDA a, pe : a * pe[1]^pe[2], 1, DenSeq(den))

RECURSIVE CancelP(_, _, _)
CancelP(amp, den, p) ==
  IF /\ den[p] >= 2
     /\ \A x \in DOMAIN amp : \A i \in 1..Len(amp[x]) : amp[x][i] % p = 0
  THEN CancelP(TLCEval([x \in DOMAIN amp |-> [i \in 1..Len(amp[x]) |-> amp[x][i] \div p]]),
               [den EXCEPT ![p] = @ - 2], p)
  ELSE [amp |-> amp, den |-> den]

Reduce(ket) ==
  LET ps == SetToSeq({p \in DOMAIN ket.den : ket.den[p] >= 2})
      r  == FoldLeft(LAMBDA acc, p : CancelP(acc.amp, acc.den, p),
                     [amp |-> ket.amp, den |-> ket.den], ps)
  IN [n |-> ket.n, amp |-> r.amp,
      den |-> [p \in {q \in DOMAIN r.den : r.den[q] # 0} |-> r.den[p]]]

BasisKet(n, ds) == [n |-> n, amp |-> (ds :> COne(n)), den |-> DenOne]

(* ---- gates ----
   X [q, p]   H [q]   Z [q]   CX [ct, p]   T [cs, t, p]   U [qs, m, sf]      *)
Controls(g) == IF g.k = "CX" THEN {g.ct[1]} ELSE IF g.k = "T" THEN Range(g.cs) ELSE {}
Target(g)   == IF g.k = "CX" THEN g.ct[2] ELSE IF g.k = "T" THEN g.t ELSE g.q
Touched(g)  == IF g.k = "U" THEN Range(g.qs) ELSE Controls(g) \cup {Target(g)}
Lo(g) == Min(Touched(g))
Hi(g) == Max(Touched(g))

(* the classical action of X, CX, T on digits, with sign s = +1 / -1 *)
Shifted(ds, dims, g, s) ==
  IF \A c \in Controls(g) : ds[c + 1] = dims[c + 1] - 1
  THEN [ds EXCEPT ![Target(g) + 1] = (@ + s * (g.p % dims[Target(g) + 1])) % dims[Target(g) + 1]]
  ELSE ds

ApplyPerm(ket, dims, g) ==
  LET new == {Shifted(x, dims, g, 1) : x \in DOMAIN ket.amp}
  IN [ket EXCEPT !.amp = TLCEval([y \in new |-> ket.amp[Shifted(y, dims, g, -1)]])]

ApplyZ(ket, dims, g) ==
  LET d == Dim(dims, g.q)
  IN [ket EXCEPT !.amp =
        TLCEval([x \in DOMAIN ket.amp |-> CRot(ket.n, (ket.n \div d) * x[g.q + 1], ket.amp[x])])]

NonZero(amp) == LET keep == {x \in DOMAIN amp : ~CIsZero(amp[x])}
                IN TLCEval([x \in keep |-> amp[x]])

ApplyH(ket, dims, g) ==
  LET d    == Dim(dims, g.q)
      w    == ket.n \div d
      at   == g.q + 1
      rest == {[x EXCEPT ![at] = 0] : x \in DOMAIN ket.amp}
      dom  == UNION {{[r EXCEPT ![at] = v] : v \in 0..(d - 1)} : r \in rest}
      amp  == TLCEval([y \in dom |->
                 FoldLeft(LAMBDA acc, j1 :
                            LET x == [y EXCEPT ![at] = j1 - 1]
                            IN IF x \in DOMAIN ket.amp
                               THEN CAdd(acc, CRot(ket.n, w * (((j1 - 1) * y[at]) % d), ket.amp[x]))
                               ELSE acc,
                          CZero(ket.n), Iota(d))])
  IN Reduce([n |-> ket.n, amp |-> NonZero(amp), den |-> DenMul(ket.den, d)])

SubDims(dims, qs) == [i \in 1..Len(qs) |-> dims[qs[i] + 1]]

ApplyU(ket, dims, g) ==
  LET sub  == SubDims(dims, g.qs)
      size == Prod(sub)
      lo   == g.qs[1]
      dig  == TLCEval([i \in 1..size |-> DigitsOf(i - 1, sub)])
      put(x, i) == [k \in 1..Len(x) |->
                      IF k > lo /\ k <= lo + Len(sub) THEN dig[i][k - lo] ELSE x[k]]
      ixof(x) == IndexOf([k \in 1..Len(sub) |-> x[lo + k]], sub) + 1
      rest == {put(x, 1) : x \in DOMAIN ket.amp}
      dom  == UNION {{put(r, i) : i \in 1..size} : r \in rest}
      m    == TLCEval([i \in 1..size |-> [j \in 1..size |-> CSum(ket.n, g.m[i][j])]])
      amp  == TLCEval([y \in dom |->
                 LET row == m[ixof(y)]
                 IN FoldLeft(LAMBDA acc, j :
                               LET x == put(y, j)
                               IN IF x \in DOMAIN ket.amp /\ ~CIsZero(row[j])
                                  THEN CAdd(acc, CMul(ket.n, ket.amp[x], row[j]))
                                  ELSE acc,
                             CZero(ket.n), Iota(size))])
  IN Reduce([n |-> ket.n, amp |-> NonZero(amp), den |-> DenMulPairs(ket.den, g.sf)])

Apply(ket, dims, g) ==
  CASE g.k \in {"X", "CX", "T"} -> ApplyPerm(ket, dims, g)
    [] g.k = "Z" -> ApplyZ(ket, dims, g)
    [] g.k = "H" -> ApplyH(ket, dims, g)
    [] g.k = "U" -> ApplyU(ket, dims, g)
    [] OTHER -> ket

(* M M^dagger = s I, decided modulo primes so that 32-bit products suffice.  *)
UnitPrimes == {32749, 32719}
PowMod(b, e, p) == FoldLeft(LAMBDA a, i : (a * (b % p)) % p, 1, Iota(e))
Square(m) == \A i \in 1..Len(m) : Len(m[i]) = Len(m)
CMod(a, p) == TLCEval([i \in 1..Len(a) |-> a[i] % p])
CMulMod(n, a, b, p) ==
  FoldLeft(LAMBDA acc, i : IF b[i] = 0 THEN acc
                           ELSE CMod(CAdd(acc, CMod(CRot(n, i - 1, CMod(CScale(b[i], a), p)), p)), p),
           CZero(n), Iota(Len(b)))
IsUnitary(n, m, sf) ==
  /\ Square(m)
  /\ \A p \in UnitPrimes :
       LET e == TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m) |-> CMod(CSum(n, m[i][j]), p)]])
           c == TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m) |-> CMod(CConj(n, CSum(n, m[i][j])), p)]])
           s == FoldLeft(LAMBDA a, pe : (a * PowMod(pe[1], pe[2], p)) % p, 1, sf)
       IN \A i, j \in 1..Len(m) :
            FoldLeft(LAMBDA acc, k : CMod(CAdd(acc, CMulMod(n, e[i][k], c[j][k], p)), p),
                     CZero(n), Iota(Len(m)))
            = IF i = j THEN CInt(n, s) ELSE CZero(n)

(* total probability: sum |amp|^2 = den *)
Normalised(ket) ==
  FoldSet(LAMBDA x, acc : CAdd(acc, CNorm2(ket.n, ket.amp[x])), CZero(ket.n), DOMAIN ket.amp)
  = CInt(ket.n, DenInt(ket.den))

(* what a run lists: the basis states in ascending order with their values *)
Listing(ket) ==
  LET xs == SetToSortSeq(DOMAIN ket.amp, LexLess)
  IN [i \in 1..Len(xs) |-> <<xs[i], ket.amp[xs[i]]>>]
=============================================================================
