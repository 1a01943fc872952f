----------------------------- MODULE Components -----------------------------
(* Connected components, ignoring the direction of edges.                    *)
EXTENDS Paths
Sym(A) == LET P == {<<v, u>> : <<u, v>> \in UNION {{u} \X A[u] : u \in DOMAIN A}} IN
          [v \in DOMAIN A |-> A[v] \cup {p[2] : p \in {q \in P : q[1] = v}}]
RECURSIVE Close(_, _, _)
Close(A, F, R) == LET N == UNION {A[u] : u \in F} \ R IN IF N = {} THEN R ELSE Close(A, N, R \cup N)
Component(A, v) == Close(A, {v}, {v})
RECURSIVE Number(_, _)
Number(A, R) == IF R = {} THEN 0 ELSE 1 + Number(A, R \ Component(A, CHOOSE v \in R : TRUE))
(* labels l are equal exactly within the components and name a member: A may *)
(* have the edges in one direction only, S has them in both                  *)
LabelWhy(A, S, l) ==
  CASE \E v \in DOMAIN A : l[v] \notin DOMAIN A -> "a label is a vertex"
    [] \E u \in DOMAIN A : \E v \in A[u] : l[u] # l[v] -> "connected vertices have the same label"
    [] \E v \in DOMAIN A : l[l[v]] # l[v] -> "the label is a vertex of the component"
    [] LET Roots == {v \in DOMAIN A : l[v] = v} IN Close(S, Roots, Roots) # DOMAIN A -> "vertices with the same label are connected"
    [] OTHER -> ""
(* l is constant on the components and different between them *)
IsPartition(A, S, l) == /\ \A u \in DOMAIN A : \A v \in A[u] : l[u] = l[v]
                        /\ Cardinality({l[v] : v \in DOMAIN A}) = Number(S, DOMAIN A)
=============================================================================
