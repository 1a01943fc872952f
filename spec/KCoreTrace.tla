----------------------------- MODULE KCoreTrace -----------------------------
(* Conformance of the k-core algorithm.                                      *)
EXTENDS TraceUtil, KCore
Start(t) == [u \in 0..(Len(t.rows) - 1) |-> {t.rows[u + 1][j][1] : j \in 1..Len(t.rows[u + 1])}]
Why(t, s, ev) ==
  LET W == Core(s, ev.kk) E == {<<ev.cut[j][1], ev.cut[j][2]>> : j \in 1..Len(ev.cut)} IN
  CASE ev.n # Cardinality(W) -> "number of vertices in the core"
    [] \E j \in 1..Len(ev.cut) : ~ev.cut[j][3] -> "a removed edge not marked"
    [] Cardinality(E) # Len(ev.cut) \/ \E e \in E : ~(e[1] < e[2] /\ e[1] \in DOMAIN s /\ e[2] \in s[e[1]] /\ (e[1] \notin W \/ e[2] \notin W)) -> "an edge of the core reported as removed"
    [] \E u \in DOMAIN s : \E v \in s[u] : u < v /\ (u \notin W \/ v \notin W) /\ <<u, v>> \notin E -> "an edge outside the core not reported"
    [] OTHER -> ""
Post(t, s, ev) == s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
