------------------------------- MODULE Cyclo -------------------------------
(***************************************************************************)
(* Exact arithmetic in Z[w_N], w_N = exp(2 pi i / N).                       *)
(*                                                                         *)
(* An element is the sequence of its EulerPhi(N) integer coefficients over  *)
(* the power basis 1, w, w^2, ...; the representation is unique, so two     *)
(* elements are equal as numbers iff they are equal as TLA+ values.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Iota(n) == [i \in 1..n |-> i]

Divides(a, b) == b % a = 0

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
LCM(a, b) == (a \div GCD(a, b)) * b

(* Polynomials: <<c0, c1, ...>>, constant term first. *)
XnMinus1(n) == [i \in 1..(n + 1) |-> IF i = 1 THEN -1 ELSE IF i = n + 1 THEN 1 ELSE 0]

(* Exact division by a monic polynomial q. *)
PolyDiv(p, q) ==
  LET dp == Len(p) - 1
      dq == Len(q) - 1
      step(acc, k) ==           \* k-th quotient coefficient, highest first
        LET at == dp - (k - 1)  \* degree being eliminated
            c  == acc.r[at + 1]
        IN [ q |-> <<c>> \o acc.q,
             r |-> [i \in 1..Len(acc.r) |->
                      LET j == i - (at - dq)
                      IN IF j >= 1 /\ j <= dq + 1 THEN acc.r[i] - c * q[j] ELSE acc.r[i]] ]
  IN FoldLeft(step, [q |-> <<>>, r |-> p], Iota(dp - dq + 1)).q

(* Cyclotomic polynomials of all divisors of n, ascending; the last is Phi_n *)
CycloPoly(n) ==
  LET divs == SetToSortSeq({d \in 1..n : Divides(d, n)}, <)
      step(acc, d) ==
        LET smaller == SelectSeq(divs, LAMBDA e : e < d /\ Divides(e, d))
            poly == FoldLeft(LAMBDA p, e : PolyDiv(p, acc[e]), XnMinus1(d), smaller)
        IN [x \in (DOMAIN acc) \cup {d} |-> IF x = d THEN poly ELSE acc[x]]
  IN FoldLeft(step, [x \in {} |-> <<>>], divs)[n]

(* w^k, k = 0 .. n-1, over the power basis; index k + 1. *)
RedTable(n) ==
  LET poly == CycloPoly(n)
      phi  == Len(poly) - 1
      one  == [i \in 1..phi |-> IF i = 1 THEN 1 ELSE 0]
      step(acc, k) ==
        LET v == acc[Len(acc)]
            top == v[phi]
        IN Append(acc, TLCEval([i \in 1..phi |->
                          (IF i = 1 THEN 0 ELSE v[i - 1]) - top * poly[i]]))
  IN FoldLeft(step, <<one>>, Iota(n - 1))

Phi(n) == Len(CycloPoly(n)) - 1

(* The definitions.  The operators without "Def" are the same functions; TLC
   may take them from Cyclo.java (compiled by setup), which CycloTest.tla
   compares with these definitions. *)

CZeroDef(n) == [i \in 1..Phi(n) |-> 0]
COneDef(n)  == RedTable(n)[1]
CIntDef(n, k) == [i \in 1..Phi(n) |-> IF i = 1 THEN k ELSE 0]

CIsZeroDef(a) == \A i \in 1..Len(a) : a[i] = 0
CAddDef(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
CScaleDef(k, a) == [i \in 1..Len(a) |-> k * a[i]]

(* a * w_n^e *)
CRotDef(n, e, a) ==
  LET s == e % n
  IN FoldLeft(LAMBDA acc, i : CAddDef(acc, CScaleDef(a[i], RedTable(n)[((i - 1 + s) % n) + 1])),
              CZeroDef(n), Iota(Len(a)))

CMulDef(n, a, b) ==
  FoldLeft(LAMBDA acc, i : CAddDef(acc, CScaleDef(b[i], CRotDef(n, i - 1, a))), CZeroDef(n), Iota(Len(b)))

CConjDef(n, a) ==
  FoldLeft(LAMBDA acc, i : CAddDef(acc, CScaleDef(a[i], RedTable(n)[((n - (i - 1)) % n) + 1])),
           CZeroDef(n), Iota(Len(a)))

CZero(n) == CZeroDef(n)
COne(n) == COneDef(n)
CInt(n, k) == CIntDef(n, k)
CAdd(a, b) == CAddDef(a, b)
CScale(k, a) == CScaleDef(k, a)
CRot(n, e, a) == CRotDef(n, e, a)
CMul(n, a, b) == CMulDef(n, a, b)
CConj(n, a) == CConjDef(n, a)
CIsZero(a) == CIsZeroDef(a)

(* An entry of a user matrix is a sum of <<c, e>> standing for c * w_N^e. *)
CSum(n, terms) ==
  FoldLeft(LAMBDA acc, t : CAdd(acc, CRot(n, t[2], CInt(n, t[1]))), CZero(n), terms)

CNorm2(n, a) == CMul(n, a, CConj(n, a))        \* |a|^2, a real element
=============================================================================
