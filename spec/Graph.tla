------------------------------- MODULE Graph -------------------------------
(* Definitions about edge lists and graphs shared by all specifications.     *)
(* An edge list is a sequence of tuples <<source, target, attributes...>>;   *)
(* an adjacency is a sequence of rows (row j belongs to vertex j - 1), each  *)
(* row a sequence of tuples <<neighbor, attributes...>>.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Rng(S) == {S[j] : j \in 1..Len(S)}
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Num(S, x) == Cardinality({j \in 1..Len(S) : S[j] = x})
(* The same elements with the same multiplicities. *)
SameBag(S, T) ==
  /\ Len(S) = Len(T)
  /\ LET A == Rng(S) IN
     /\ A = Rng(T)
     /\ Cardinality(A) = Len(S) \/ \A x \in A : Num(S, x) = Num(T, x)
Distinct(S) == Cardinality(Rng(S)) = Len(S)
IsPerm(p, n) == Len(p) = n /\ Rng(p) = 0..(n - 1)
MapSeq(S, Op(_)) == [j \in 1..Len(S) |-> Op(S[j])]
Asc(S) == \A j \in 1..(Len(S) - 1) : S[j] <= S[j + 1]
StrictAsc(S) == \A j \in 1..(Len(S) - 1) : S[j] < S[j + 1]
Firsts(S) == [j \in 1..Len(S) |-> S[j][1]]

Tail2(x) == SubSeq(x, 3, Len(x))
Flip(x) == <<x[2], x[1]>> \o Tail2(x)
Flipped(E) == [j \in 1..Len(E) |-> Flip(E[j])]
(* (keyed vertex, neighbor, attributes...) triples of an edge list *)
Keyed(E, idx) == IF idx = 0 THEN E ELSE Flipped(E)
Entries(E, idx, directed) == IF directed THEN Keyed(E, idx) ELSE E \o Flipped(E)
(* the same triples read off the rows of an adjacency *)
Flat(rows) == FlattenSeq([u \in 1..Len(rows) |-> [j \in 1..Len(rows[u]) |-> <<u - 1>> \o rows[u][j]]])
(* rows written sparsely: <<vertex, row>> for the rows that hold entries *)
SpFlat(sp) == FlattenSeq([k \in 1..Len(sp) |-> [j \in 1..Len(sp[k][2]) |-> <<sp[k][1]>> \o sp[k][2][j]]])
SpLens(sp) == [k \in 1..Len(sp) |-> <<sp[k][1], Len(sp[k][2])>>]
SpOk(sp, n) == StrictAsc(Firsts(sp)) /\ \A k \in 1..Len(sp) : sp[k][1] \in 0..(n - 1) /\ sp[k][2] # <<>>
RowLens(rows) == [u \in 1..Len(rows) |-> Len(rows[u])]
Degrees(n, T) == [u \in 1..n |-> Cardinality({j \in 1..Len(T) : T[j][1] = u - 1})]
RECURSIVE SumTo(_, _)
SumTo(S, j) == IF j = 0 THEN 0 ELSE S[j] + SumTo(S, j - 1)
SumSeq(S) == SumTo(S, Len(S))
NeedV(E) == IF E = <<>> THEN 0 ELSE 1 + SetMax({E[j][1] : j \in 1..Len(E)} \cup {E[j][2] : j \in 1..Len(E)})
MaxOf(x, y) == IF x > y THEN x ELSE y
MinOf(x, y) == IF x < y THEN x ELSE y
=============================================================================
