------------------------------- MODULE TcTrace -------------------------------
(* Conformance of triangle counting and of the intersection size.            *)
EXTENDS TraceUtil, Triangles
Start(t) == IF Has(t, "rows") THEN Count(Succ(t.rows)) ELSE 0
(* common elements of two sorted sequences with multiplicities *)
Common(x, y) == IF Distinct(x) \/ Distinct(y) THEN Cardinality(Rng(x) \cap Rng(y))
                ELSE SumOver(Rng(x) \cap Rng(y), LAMBDA a : MinOf(Num(x, a), Num(y, a)))
Why(t, s, ev) ==
  CASE ev.k = "tc" -> LET bad == {j \in 1..Len(ev.res) : ev.res[j].n # s} IN IF bad = {} THEN "" ELSE ev.res[SetMin(bad)].k \o ": number of triangles"
    [] ev.k = "int" -> IF \A j \in 1..Len(ev.n) : ev.n[j] = Common(ev.x, ev.y) THEN "" ELSE "size of the intersection"
Post(t, s, ev) == s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
