------------------------------ MODULE MstTrace ------------------------------
(* Conformance of the spanning-tree algorithms.  Weights are in units of the *)
(* smallest weight.                                                          *)
EXTENDS TraceUtil, SpanningForest
Start(t) == [n |-> t.n, E |-> t.e]
(* the lightest edge between a pair of vertices *)
Edge2(E, a, b) == {E[j][3] : j \in {k \in 1..Len(E) : (E[k][1] = a /\ E[k][2] = b) \/ (E[k][1] = b /\ E[k][2] = a)}}
KrusWhy(s, ev, r) ==
  CASE r.n # s.n -> "number of vertices"
    [] ~SameBag(r.after, s.E) -> "the given list does not hold its edges any more"
    [] OTHER -> ForestWhy(s.n, s.E, r.max, r.t)
PrimWhy(s, r) ==
  IF Len(r.pred) # s.n THEN "number of predecessors"
  ELSE LET C == CHOOSE X \in Comps(s.n, s.E) : r.root \in X
           In == SelectSeq(s.E, LAMBDA e : e[1] \in C)
           P == {v \in 0..(s.n - 1) : r.pred[v + 1] # -1} IN
       CASE P # C \ {r.root} -> "predecessors of other vertices than those connected to the source"
         [] \E v \in P : r.pred[v + 1] \notin C \/ Edge2(In, v, r.pred[v + 1]) = {} -> "predecessor is not a neighbor"
         [] OTHER -> LET T == TLCEval(SetToSeq({LET a == r.pred[v + 1] w == SetMin(Edge2(In, v, a)) IN IF \E j \in 1..Len(In) : In[j] = <<v, a, w>> THEN <<v, a, w>> ELSE <<a, v, w>> : v \in P}))
                     IN ForestWhy(s.n, In, FALSE, T)
WhyOne(s, ev, r) == IF r.k = "prim" THEN PrimWhy(s, r) ELSE KrusWhy(s, ev, r)
Why(t, s, ev) ==
  LET bad == {j \in 1..Len(ev.res) : WhyOne(s, ev, ev.res[j]) # ""} IN
  IF bad = {} THEN "" ELSE LET j == SetMin(bad) IN ev.res[j].k \o ": " \o WhyOne(s, ev, ev.res[j])
Post(t, s, ev) == s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
