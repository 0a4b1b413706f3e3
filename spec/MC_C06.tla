------------------------------- MODULE MC_C06 -------------------------------
(* Chains of backend operations, as running a circuit makes them.            *)
EXTENDS Linalg, Json
CONSTANTS Bound
VARIABLES m, ops
vars == <<m, ops>>
Z == <<0, 0>>
One == <<1, 0>>
I_ == <<0, 1>>
N(x) == <<x, 0>>
Stock == {
  <<<<One, Z>>, <<Z, One>>>>, <<<<Z, One>>, <<One, Z>>>>, <<<<One, N(2)>>, <<Z, N(-1)>>>>, <<<<Z, I_>>, <<N(-1), Z>>>>,
  <<<<One>>, <<Z>>>>, <<<<Z>>, <<I_>>>>, <<<<Z>>, <<One>>, <<Z>>>>, <<<<One, I_>>>>, <<<<N(2)>>>>,
  <<<<Z, Z>>, <<Z, Z>>>>, <<<<Z, Z, One>>, <<One, Z, Z>>, <<Z, One, Z>>>>, <<<<One, Z, N(3)>>, <<Z, <<2, -1>>, Z>>>>}
Init == \/ \E x \in Stock : m = x /\ ops = <<[op |-> "matrix", b |-> x]>>
        \/ \E n \in 1..3, k \in 1..3 : m = Eye(n, k) /\ ops = <<[op |-> "eye", b |-> m]>>
Op(name, b) == ops' = Append(ops, [op |-> name, b |-> b])
KronA == \E b \in Stock : Rows(m) * Rows(b) <= 8 /\ Cols(m) * Cols(b) <= 8 /\ m' = Kron(m, b) /\ Op("kron", b)
DotA  == \E b \in Stock : Cols(m) = Rows(b) /\ m' = Dot(m, b) /\ Op("dot", b)
DotL  == \E b \in Stock : Cols(b) = Rows(m) /\ m' = Dot(b, m) /\ Op("ldot", b)
KronL == \E b \in Stock : Rows(m) * Rows(b) <= 8 /\ Cols(m) * Cols(b) <= 8 /\ m' = Kron(b, m) /\ Op("lkron", b)
Next == Len(ops) <= Bound /\ (KronA \/ DotA \/ DotL \/ KronL)
Spec == Init /\ [][Next]_vars
Set2Seq(s) == SetToSortSeq(s, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
Emitted == PrintT("QV " \o ToJson([m |-> m, ops |-> ops, u |-> Unitary(m), nz |-> Set2Seq(Nonzero(m))]))
(* algebra the runs of a circuit rely on *)
MixedProduct == Emitted /\ \A b \in {x \in Stock : Rows(x) = 2 /\ Cols(x) = 2} :
  (Rows(m) = 2 /\ Cols(m) = 2) => Dot(Kron(m, b), Kron(m, b)) = Kron(Dot(m, m), Dot(b, b))
Involution == Adjoint(Adjoint(m)) = m
=============================================================================
