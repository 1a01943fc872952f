------------------------------ MODULE UnionFind ------------------------------
(* Disjoint sets.  Abstractly a partition of 0..n-1 (a set of blocks);       *)
(* calls: union(u, v), try(u, v) (a union that reports whether it joined     *)
(* two sets), find(u), reset, copy.                                          *)
EXTENDS Integers, Sequences, FiniteSets
Singletons(n) == {{v} : v \in 0..(n - 1)}
Block(P, u) == CHOOSE B \in P : u \in B
Same(P, u, v) == Block(P, u) = Block(P, v)
Join(P, u, v) == LET X == Block(P, u)  Y == Block(P, v) IN (P \ {X, Y}) \cup {X \cup Y}
After(P, n, op) == CASE op.k \in {"union", "try"} -> Join(P, op.u, op.v)
                     [] op.k = "reset" -> Singletons(n)
                     [] OTHER -> P
(* rep[v + 1] is the representative of v *)
RepWhy(P, n, rep) ==
  CASE Len(rep) # n -> "number of elements"
    [] \E v \in 0..(n - 1) : rep[v + 1] \notin 0..(n - 1) -> "representative is no element"
    [] \E B \in P : \E u, v \in B : rep[u + 1] # rep[v + 1] -> "joined elements have one representative"
    [] \E B \in P : \E u \in B : rep[u + 1] \notin B -> "the representative is in the set"
    [] OTHER -> ""
=============================================================================
