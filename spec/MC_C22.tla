------------------------------- MODULE MC_C22 -------------------------------
(* The construction itself, executed gate by gate on every binary input.     *)
EXTENDS Tree, Json
CONSTANTS Bound
VARIABLES n, x0, x, at
vars == <<n, x0, x, at>>
Bits(k) == [1..k -> {0, 1}]
D == [k \in 3..Bound |-> TLCEval(Dims(k))]
G == [k \in 3..Bound |-> TLCEval(Gates(k))]
Init == /\ n \in 3..Bound /\ x0 \in Bits(n) /\ x = x0 /\ at = 0
Next == /\ at < Len(G[n])
        /\ x' = Act(D[n], x, G[n][at + 1])
        /\ at' = at + 1 /\ UNCHANGED <<n, x0>>
Spec == Init /\ [][Next]_vars
Within == \A i \in 1..n : x[i] \in 0..(D[n][i] - 1)
Done == at = Len(G[n])
Correct == Done => x = Expected(x0) /\ (at = Len(G[n]) => PrintT("QV " \o ToJson([n |-> n, x |-> x0, y |-> x])))
(* no line ever needs more levels than its neighbours explain: the target    *)
(* flips in the middle, once, and the second half undoes the first           *)
Middle == at = (Len(G[n]) - 1) \div 2 => x[n] = x0[n]
Flips == [][(x'[n] # x[n]) => at = (Len(G[n]) - 1) \div 2]_vars
Formulas ==
  (at = 0 /\ x0 = Ones(n)) =>
     /\ Quaternary(D[n], G[n]) = CQuat(n) /\ Len(G[n]) = CQuat(n) + CTern(n)
     /\ Number(D[n], 2) = CQubits(n) /\ Number(D[n], 3) = CQutrits(n) /\ Number(D[n], 4) = CQuquarts(n)
     /\ \A k \in 3..48 : LET d == Dims(k) IN
          /\ Number(d, 2) = CQubits(k) /\ Number(d, 3) = CQutrits(k) /\ Number(d, 4) = CQuquarts(k)
          /\ Quaternary(d, Gates(k)) = CQuat(k) /\ Len(Gates(k)) = CQuat(k) + CTern(k)
=============================================================================
