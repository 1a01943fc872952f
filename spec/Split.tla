------------------------------- MODULE Split -------------------------------
(* Divisible ranges as a parallel scheduler sees them.                       *)
(* A range enumerates a sequence of records; splitting it replaces it by two *)
(* ranges that enumerate, between them, exactly the same records, each in    *)
(* the original relative order.                                              *)
EXTENDS Graph
IsSubSeq(s, t) == s = SelectSeq(t, LAMBDA x : x \in Rng(s))     \* for distinct records
Partitions(a, b, old) == Len(a) + Len(b) = Len(old) /\ SameBag(a \o b, old) /\ IsSubSeq(a, old) /\ IsSubSeq(b, old)
LastOf(x) == x[Len(x)]
Count(s) == Len(s)
Total(s) == SumSeq([j \in 1..Len(s) |-> LastOf(s[j])])
Largest(s) == IF s = <<>> THEN -1 ELSE SetMax({LastOf(s[j]) : j \in 1..Len(s)})
=============================================================================
