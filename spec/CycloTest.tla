----------------------------- MODULE CycloTest -----------------------------
(* Cyclo.java computes the operators that Cyclo.tla defines. *)
EXTENDS Cyclo

VARIABLE n
Ns == {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 30}

Elems(k) ==
  {[i \in 1..Phi(k) |-> ((i * a + b) % 7) - 3] : a \in 1..3, b \in 0..1} \cup {CIntDef(k, 0), CIntDef(k, -2)}

Agree(k) ==
  LET es == Elems(k)
  IN /\ CZero(k) = CZeroDef(k) /\ COne(k) = COneDef(k)
     /\ \A j \in {-3, 0, 5} : CInt(k, j) = CIntDef(k, j)
     /\ \A a \in es :
          /\ CIsZero(a) = CIsZeroDef(a)
          /\ CConj(k, a) = CConjDef(k, a)
          /\ \A e \in {-1, 0, 1, k - 1, k + 3} : CRot(k, e, a) = CRotDef(k, e, a)
          /\ \A j \in {-2, 3} : CScale(j, a) = CScaleDef(j, a)
          /\ \A b \in es : CAdd(a, b) = CAddDef(a, b)
     /\ \A a \in {CHOOSE x \in es : ~CIsZero(x)} : \A b \in es : CMul(k, a, b) = CMulDef(k, a, b)

(* laws of the field that hold whatever the tables are made of *)
Laws(k) ==
  /\ CRot(k, k, COne(k)) = COne(k)
  /\ k > 1 => CIsZero(FoldLeft(LAMBDA acc, i : CAdd(acc, CRot(k, i, COne(k))), CZero(k), Iota(k)))
  /\ \A e \in 0..(k - 1) : CNorm2(k, CRot(k, e, COne(k))) = COne(k)
  /\ \A d \in 1..(k - 1) : CRot(k, d, COne(k)) # COne(k)

Init == n \in Ns
Next == UNCHANGED n
Inv == Agree(n) /\ Laws(n)
=============================================================================
