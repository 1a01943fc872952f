-------------------------------- MODULE MisMC --------------------------------
(* The greedy and the DAG-driven maximal independent set algorithms on every *)
(* small loop-free graph, stored symmetrically or as a triangle.  The DAG    *)
(* orders vertices by stored degree (larger first) and number; the queue of  *)
(* vertices whose predecessors are done may be served in any order.          *)
EXTENDS Independent
CONSTANTS N
V == 0..(N - 1)
VARIABLES S, how, next, removed, I, Q, done, v, left
vars == <<S, how, next, removed, I, Q, done, v, left>>
Pairs == {p \in V \X V : p[1] < p[2]}
Stored(F, sto) == [x \in V |-> {y \in V : \/ sto # "lower" /\ <<x, y>> \in F
                                          \/ sto # "upper" /\ <<y, x>> \in F}]
Deg(x) == Cardinality(S[x])
Before(x, y) == Deg(x) > Deg(y) \/ (Deg(x) = Deg(y) /\ x < y)
Preds(x) == {y \in V : Touch(S, x, y) /\ Before(y, x)}
Succs(x) == {y \in V : Touch(S, x, y) /\ Before(x, y)}
Init == /\ how \in {"greedy", "dag"}
        /\ \E F \in SUBSET Pairs, sto \in (IF how = "greedy" THEN {"both"} ELSE {"both", "upper", "lower"}) : S = Stored(F, sto)
        /\ next = 0 /\ removed = {}
        /\ I = (IF how = "greedy" THEN {} ELSE V)
        /\ Q = (IF how = "greedy" THEN {} ELSE {x \in V : Preds(x) = {}})
        /\ done = [x \in V |-> 0] /\ v = -1 /\ left = {}
Scan == /\ how = "greedy" /\ next < N
        /\ next' = next + 1
        /\ IF next \in removed THEN UNCHANGED <<removed, I>> ELSE I' = I \cup {next} /\ removed' = removed \cup S[next]
        /\ UNCHANGED <<S, how, Q, done, v, left>>
Pick == /\ how = "dag" /\ left = {} /\ \E x \in Q : v' = x /\ left' = Succs(x) /\ Q' = Q \ {x}
        /\ UNCHANGED <<S, how, next, removed, I, done>>
Edge == /\ how = "dag" /\ \E u \in left :
             /\ left' = left \ {u}
             /\ done' = [done EXCEPT ![u] = @ + 1]
             /\ Q' = (IF done[u] + 1 = Cardinality(Preds(u)) THEN Q \cup {u} ELSE Q)
             /\ I' = (IF v \in I THEN I \ {u} ELSE I)
        /\ UNCHANGED <<S, how, next, removed, v>>
Next == Scan \/ Pick \/ Edge
Spec == Init /\ [][Next]_vars
Finished == (how = "greedy" /\ next = N) \/ (how = "dag" /\ Q = {} /\ left = {})
Result == Finished => Maximal(S, I)
(* all along: what was decided is right *)
GreedyInv == how = "greedy" => Independent(S, I) /\ \A x \in 0..(next - 1) : x \in I \/ \E y \in I : Touch(S, x, y)
DagInv == how = "dag" => \A x \in V : done[x] = Cardinality(Preds(x)) => (x \in I <=> \A y \in Preds(x) : y \notin I)
Served == how = "dag" /\ Finished => \A x \in V : done[x] = Cardinality(Preds(x))
=============================================================================
