--------------------------- MODULE PageRankTrace ---------------------------
(* Conformance of PageRank: the recorded scores are the damped fixpoint.     *)
EXTENDS TraceUtil, PageRank
S0 == 50000000
Start(t) == LET R == [v \in 1..Len(t.rows) |-> [j \in 1..Len(t.rows[v]) |-> t.rows[v][j][1]]] IN [R |-> R, deg |-> TLCEval(OutDegrees(R))]
Judge(s, ev, r) == FixWhy(s.R, s.deg, r.x, ev.p, 20, S0, ev.thr, ev.slack)
Why(t, s, ev) ==
  LET bad == {j \in 1..Len(ev.res) : Judge(s, ev, ev.res[j]) # ""} IN
  IF bad = {} THEN "" ELSE LET j == CHOOSE k \in bad : \A l \in bad : k <= l IN ev.res[j].k \o ": " \o Judge(s, ev, ev.res[j])
Post(t, s, ev) == s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
