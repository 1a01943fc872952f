----------------------------- MODULE SparseTrace -----------------------------
(* Conformance of sparse products, element-wise intersection and Jaccard     *)
(* similarity.                                                               *)
EXTENDS TraceUtil, Sparse
Start(t) == <<>>
Times(op, A, B) == [r \in 1..Len(A) |-> TLCEval(RowTimes(op, A[r], B))]
ProductWhy(P, n, C) ==   (* P: row -> (column -> value) *)
  CASE \E e \in Rng(C) : ~(e[1] \in 0..(n - 1) /\ e[2] \in DOMAIN P[e[1] + 1]) -> "an entry where the index sets do not meet"
    [] \E e \in Rng(C) : P[e[1] + 1][e[2]] # e[3] -> "value of an entry"
    [] Cardinality({<<e[1], e[2]>> : e \in Rng(C)}) # Len(C) -> "an entry twice"
    [] Len(C) # SumSeq([r \in 1..n |-> Cardinality(DOMAIN P[r])]) -> "an entry is missing"
    [] OTHER -> ""
DotTimes(A, B) == [r \in 1..Len(A) |-> LET Cols == {c \in 0..(Len(B) - 1) : DotOf(A[r], B[c + 1]).meets} IN TLCEval([c \in Cols |-> DotOf(A[r], B[c + 1]).value])]
MeetWhy(ev) == LET M == Meeting(ev.x, ev.y) want == {<<ev.x[m[1]][1], ev.x[m[1]][2], ev.y[m[2]][2]>> : m \in M} IN
  CASE Len(ev.out) # Cardinality(M) -> "number of common elements"
    [] Rng(ev.out) # want -> "combined elements"
    [] ~Asc([j \in 1..Len(ev.out) |-> ev.out[j][1]]) -> "order of the common elements"
    [] OTHER -> ""
(* weights are recorded in millionths *)
Million == 1000000
Names(r) == {r[j][1] : j \in 1..Len(r)}
AbsD(a) == IF a < 0 THEN -a ELSE a
JacOk(A, u, e) == LET X == Names(A[u]) Y == Names(A[e[1] + 1]) num == Cardinality(X \cap Y) den == Cardinality(X) + Cardinality(Y) - num IN
                  e[2] \in 0..(2 * Million) /\ AbsD(e[2] * den - num * Million) <= den
JacWhy(ev) == LET A == ev.after IN
  CASE [u \in 1..Len(A) |-> Firsts(A[u])] # [u \in 1..Len(ev.before) |-> Firsts(ev.before[u])] -> "the graph changed"
    [] ev.n # SumSeq([u \in 1..Len(A) |-> Cardinality({j \in 1..Len(A[u]) : A[u][j][1] >= u})]) -> "number of edges rated"
    [] \E u \in 1..Len(A) : \E j \in 1..Len(A[u]) : A[u][j][1] >= u /\ ~JacOk(A, u, A[u][j]) -> "similarity of an edge"
    [] \E u \in 1..Len(A) : \E j \in 1..Len(A[u]) : Tail2(A[u][j]) # Tail2(ev.before[u][j]) -> "another attribute changed"
    [] OTHER -> ""
Why(t, s, ev) ==
  CASE ev.k = "product" -> LET w == ProductWhy(Times(ev.op, ev.a, ev.b), Len(ev.a), ev.c) IN IF w = "" THEN "" ELSE "spMatspMat: " \o w
    [] ev.k = "productT" -> LET w == ProductWhy(DotTimes(ev.a, ev.b), Len(ev.a), ev.c) IN IF w = "" THEN "" ELSE "spMatspMatT: " \o w
    [] ev.k = "meet" -> MeetWhy(ev)
    [] ev.k = "jaccard" -> JacWhy(ev)
Post(t, s, ev) == s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
