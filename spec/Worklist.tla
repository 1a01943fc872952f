------------------------------ MODULE Worklist ------------------------------
(* Work lists: items are pushed with a level (always 0 where there are no     *)
(* levels) and served one at a time: the one pushed first among those of the *)
(* lowest level.                                                             *)
EXTENDS Integers, Sequences
Lowest(q) == CHOOSE j \in 1..Len(q) : \A k \in 1..Len(q) : q[j][2] < q[k][2] \/ (q[j][2] = q[k][2] /\ j <= k)
Without(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
Pushed(q, x) == Append(q, x)
ServedNext(q) == q[Lowest(q)]
Served(q) == Without(q, Lowest(q))
=============================================================================
