------------------------------- MODULE Sparse -------------------------------
(* Sparse matrices as sequences of rows of <<column, value>> entries with    *)
(* columns from 0; row i of the sequence is row i - 1 of the matrix.         *)
EXTENDS Graph, TLC
(* entries of row r of the product with B, accumulated as a set of           *)
(* <<column, value>>; Mul and Add are chosen by op                           *)
Mul(op, a, b) == CASE op = "sum" -> a * b [] op = "min" -> a + b [] op = "max" -> a * b
Add(op, a, b) == CASE op = "sum" -> a + b [] op = "min" -> MinOf(a, b) [] op = "max" -> MaxOf(a, b)
RECURSIVE AddUp(_, _, _, _)
AddUp(op, acc, L, j) == IF j > Len(L) THEN acc
  ELSE LET e == L[j] IN AddUp(op, TLCEval(IF e[1] \in DOMAIN acc THEN [acc EXCEPT ![e[1]] = Add(op, @, e[2])] ELSE acc @@ (e[1] :> e[2])), L, j + 1)
Scaled(op, a, row) == [j \in 1..Len(row) |-> <<row[j][1], Mul(op, a, row[j][2])>>]
RowTimes(op, r, B) == AddUp(op, <<>>, FlattenSeq([k \in 1..Len(r) |-> IF r[k][1] < Len(B) THEN Scaled(op, r[k][2], B[r[k][1] + 1]) ELSE <<>>]), 1)
(* dot product of two rows with distinct columns                             *)
DotOf(r, s) == LET M == {j \in 1..Len(r) : \E k \in 1..Len(s) : s[k][1] = r[j][1]}
                   At(a) == (CHOOSE k \in 1..Len(s) : s[k][1] = a)
                   f[j \in 0..Len(r)] == IF j = 0 THEN 0 ELSE f[j - 1] + (IF j \in M THEN r[j][2] * s[At(r[j][1])][2] ELSE 0) IN
               [meets |-> M # {}, value |-> f[Len(r)]]
(* the same elements kept by an intersection of sorted sequences: the i-th   *)
(* occurrence meets the i-th occurrence                                      *)
Occ(s, j) == Cardinality({k \in 1..j : s[k][1] = s[j][1]})
Meeting(r, s) == {m \in (1..Len(r)) \X (1..Len(s)) : r[m[1]][1] = s[m[2]][1] /\ Occ(r, m[1]) = Occ(s, m[2])}
=============================================================================
