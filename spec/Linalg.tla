------------------------------- MODULE Linalg -------------------------------
(***************************************************************************)
(* What the backends compute with: dense matrices as sequences of rows.     *)
(* Entries are Gaussian integers <<re, im>>.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Rows(m) == Len(m)
Cols(m) == Len(m[1])
GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
GConj(a) == <<a[1], 0 - a[2]>>

Eye(n, k) == [i \in 1..n |-> [j \in 1..k |-> IF i = j THEN <<1, 0>> ELSE <<0, 0>>]]

Dot(a, b) ==
  [i \in 1..Rows(a) |-> [j \in 1..Cols(b) |->
     FoldLeft(LAMBDA s, k : GAdd(s, GMul(a[i][k], b[k][j])), <<0, 0>>, [k \in 1..Cols(a) |-> k])]]

Kron(a, b) ==
  [i \in 1..(Rows(a) * Rows(b)) |-> [j \in 1..(Cols(a) * Cols(b)) |->
     GMul(a[((i - 1) \div Rows(b)) + 1][((j - 1) \div Cols(b)) + 1],
          b[((i - 1) % Rows(b)) + 1][((j - 1) % Cols(b)) + 1])]]

Adjoint(a) == [i \in 1..Cols(a) |-> [j \in 1..Rows(a) |-> GConj(a[j][i])]]
Unitary(a) == Rows(a) = Cols(a) /\ Dot(a, Adjoint(a)) = Eye(Rows(a), Rows(a))
Nonzero(a) == {ij \in (1..Rows(a)) \X (1..Cols(a)) : a[ij[1]][ij[2]] # <<0, 0>>}
=============================================================================
