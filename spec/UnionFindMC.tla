----------------------------- MODULE UnionFindMC -----------------------------
(* The forests that implement disjoint sets, for every short history: with   *)
(* parent and rank (Mode "rank", the pairs used by Kruskal), or one array    *)
(* whose negative entries are roots holding minus the size or minus the      *)
(* height (Modes "size", "height").  Also the generator of the histories     *)
(* replayed into the code.                                                   *)
EXTENDS UnionFind, TLC
CONSTANTS N, Depth, Mode, Gen
V == 0..(N - 1)
VARIABLES up, rank, P, hist, said
vars == <<up, rank, P, hist, said>>
Ops == [k : {"union", "try"}, u : V, v : V] \cup [k : {"find"}, u : V, v : {0}] \cup (IF Mode = "rank" THEN {} ELSE {[k |-> "reset", u |-> 0, v |-> 0], [k |-> "copy", u |-> 0, v |-> 0]})
Init == up = [v \in V |-> v] /\ rank = [v \in V |-> IF Mode = "rank" THEN 0 ELSE 1] /\ P = Singletons(N) /\ hist = <<>> /\ said = {}
RECURSIVE RootIn(_, _)
RootIn(f, v) == IF f[v] = v THEN v ELSE RootIn(f, f[v])
(* the compression of the pair version shortens the path of the parent only *)
RECURSIVE Shorten(_, _, _)
Shorten(f, v, r) == IF v = r THEN f ELSE LET w == f[v] IN Shorten([f EXCEPT ![w] = r], w, r)
RECURSIVE Flatten(_, _, _)
Flatten(f, v, r) == IF v = r THEN f ELSE Flatten([f EXCEPT ![v] = r], f[v], r)
Find(f, v) == LET r == RootIn(f, v) IN IF Mode = "rank" THEN Shorten(f, v, r) ELSE Flatten(f, v, r)
Link(f, x, y, again) ==
  IF x = y /\ ~again THEN up' = f /\ UNCHANGED rank
  ELSE IF rank[x] < rank[y] THEN up' = [f EXCEPT ![x] = y] /\ rank' = (IF Mode = "size" THEN [rank EXCEPT ![y] = @ + rank[x]] ELSE rank)
  ELSE up' = [f EXCEPT ![y] = x] /\ rank' = (IF Mode = "size" THEN [rank EXCEPT ![x] = @ + rank[y]] ELSE IF rank[x] = rank[y] THEN [rank EXCEPT ![x] = @ + 1] ELSE rank)
Do(op) ==
  /\ Len(hist) < Depth /\ hist' = Append(hist, op) /\ P' = After(P, N, op)
  /\ CASE op.k \in {"union", "try"} ->
            LET f == IF Mode = "rank" THEN Find(Find(up, op.u), op.v) ELSE up
                x == RootIn(up, op.u)  y == RootIn(up, op.v) IN
            /\ Link(f, x, y, Mode = "rank" /\ op.k = "union")       \* joining a set with itself raises its rank
            /\ said' = IF op.k = "try" THEN {<<x # y, ~Same(P, op.u, op.v)>>} ELSE {}
       [] op.k = "find" -> up' = Find(up, op.u) /\ UNCHANGED rank /\ said' = {}
       [] op.k = "reset" -> up' = [v \in V |-> v] /\ rank' = [v \in V |-> 1] /\ said' = {}
       [] op.k = "copy" -> UNCHANGED <<up, rank>> /\ said' = {}
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
(* below a root ranks rise strictly along parents, hence no cycles *)
Forest == \A v \in V : up[v] # v => (Mode = "size" \/ rank[v] < rank[up[v]]) /\ RootIn(up, v) # v
Represents == RepWhy(P, N, [j \in 1..N |-> RootIn(up, j - 1)]) = "" /\ Cardinality({RootIn(up, v) : v \in V}) = Cardinality(P)
Sizes == Mode = "size" => \A v \in V : up[v] = v => rank[v] = Cardinality(Block(P, v))
Tells == \A x \in said : x[1] = x[2]
Enc(op) == <<(CASE op.k = "union" -> 1 [] op.k = "try" -> 2 [] op.k = "find" -> 3 [] op.k = "reset" -> 4 [] op.k = "copy" -> 5), op.u, op.v>>
Emit == (Gen /\ Len(hist) = Depth) => PrintT(<<"BEHAVIOUR", <<N>>, [j \in 1..Len(hist) |-> Enc(hist[j])]>>)
View == <<up, rank, P, said>>
=============================================================================
