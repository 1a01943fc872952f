---------------------------- MODULE TraverseTrace ----------------------------
(* Conformance of the traversal ranges.                                      *)
EXTENDS TraceUtil, Traverse
Start(t) == [A |-> Succ(t.rows)]
Fail(why) == FirstFail(<< <<why, why = "">> >>)
Why(t, s, ev) ==
  CASE ev.k = "bfs" -> Fail(VertexWhy(Levels(s.A, ev.seed), ev.seed, ev.seq))
    [] ev.k = "tree" -> Fail(TreeEdgesWhy(Levels(s.A, ev.seed), t.rows, ev.seq, TRUE))
    [] ev.k = "tree3" -> LET L == Levels(s.A, ev.seed) IN   \* a seed without other reachable vertices is given as <<seed, seed>>
         Fail(IF Reached(L) = {ev.seed} THEN IF ev.seq = << <<ev.seed, ev.seed>> >> THEN "" ELSE "lonely seed" ELSE TreeEdgesWhy(L, t.rows, ev.seq, TRUE))
    [] ev.k = "filtered" -> LET R == Filtered(t.rows, ev.a, ev.b, ev.m) IN
         Fail(FilteredWhy(Levels(Succ(R), ev.seed), R, ev.seed, ev.target, ev.seq, ev.found))
    [] ev.k = "dag" -> Fail(DagWhy(ev.e, ev.seq))
    [] ev.k = "reverse" -> FirstFail(<< <<"predecessors from start to stop", ev.seq = Follow(ev.pred, ev.start, ev.stop)>> >>)
    [] ev.k = "walk" -> Fail(WalkWhy(s.A, ev.first, ev.len, ev.seq))
    [] ev.k = "same" -> FirstFail(<< <<"the same walk for the same seed", ev.x = ev.y>> >>)
    [] ev.k = "back1" -> FirstFail(<< <<"the back edge of an edge leads to its source", \A j \in 1..Len(ev.pairs) : ev.pairs[j][3] = ev.pairs[j][1]>> >>)
    [] ev.k = "back" ->
         FirstFail(<< <<"neighbor lists completed with missing back edges",
                        /\ Len(ev.rows) = Len(t.rows)
                        /\ \A v \in 1..Len(t.rows) :
                             /\ SubSeq(ev.rows[v], 1, Len(t.rows[v])) = t.rows[v]
                             /\ LET more == Firsts(SubSeq(ev.rows[v], Len(t.rows[v]) + 1, Len(ev.rows[v]))) IN
                                Distinct(more) /\ Rng(more) = Missing(s.A, v - 1)>>,
                      <<"the back edge of an edge leads to its source", \A j \in 1..Len(ev.pairs) : ev.pairs[j][3] = ev.pairs[j][1]>> >>)
Post(t, s, ev) == s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
