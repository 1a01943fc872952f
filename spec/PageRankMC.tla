----------------------------- MODULE PageRankMC -----------------------------
(* The iteration of page_rank on small graphs in exact fixed-point           *)
(* arithmetic: in every sweep each vertex, in any order and overlapping with *)
(* others, adds up its in-neighbors' contributions one by one as they are at *)
(* that moment, then publishes its new score (async), or contributions are   *)
(* recomputed between sweeps (not async).  When the moves of a sweep stay    *)
(* below the tolerance the certificate holds.                                *)
EXTENDS PageRank
CONSTANTS N, MaxIn, S, P, Q, Thr, Overlap
Idx == 1..N
VARIABLES R, async, x, contrib, todo, busy, err, stop
vars == <<R, async, x, contrib, todo, busy, err, stop>>
Rows == UNION {{s \in [1..m -> 0..(N - 1)] : \A j \in 1..(m - 1) : s[j] <= s[j + 1]} : m \in 0..MaxIn}
Deg == OutDegrees(R)
Init == /\ R \in {r \in [Idx -> Rows] : \A u \in Idx : OutDegrees(r)[u] > 0}
        /\ async \in BOOLEAN
        /\ x = [v \in Idx |-> S \div N] /\ contrib = [v \in Idx |-> (S \div N) \div OutDegrees(R)[v]]
        /\ todo = Idx /\ busy = {} /\ err = 0 /\ stop = FALSE
(* busy: <<vertex, edges read, sum>> *)
Begin == /\ ~stop /\ Cardinality(busy) < Overlap /\ \E v \in todo : todo' = todo \ {v} /\ busy' = busy \cup {<<v, 0, 0>>}
         /\ UNCHANGED <<R, async, x, contrib, err, stop>>
Read == \E b \in busy : /\ b[2] < Len(R[b[1]])
                        /\ busy' = (busy \ {b}) \cup {<<b[1], b[2] + 1, b[3] + contrib[R[b[1]][b[2] + 1] + 1]>>}
                        /\ UNCHANGED <<R, async, x, contrib, todo, err, stop>>
Write == \E b \in busy : /\ b[2] = Len(R[b[1]])
                         /\ LET y == (((Q - P) * S) \div N + P * b[3]) \div Q IN
                            /\ x' = [x EXCEPT ![b[1]] = y] /\ err' = err + Abs(y - x[b[1]])
                            /\ contrib' = IF async THEN [contrib EXCEPT ![b[1]] = y \div Deg[b[1]]] ELSE contrib
                         /\ busy' = busy \ {b} /\ UNCHANGED <<R, async, todo, stop>>
Sweep == /\ ~stop /\ todo = {} /\ busy = {}
         /\ IF err < Thr THEN stop' = TRUE /\ UNCHANGED <<todo, err, contrib>>
            ELSE stop' = FALSE /\ todo' = Idx /\ err' = 0 /\ contrib' = (IF async THEN contrib ELSE [v \in Idx |-> x[v] \div Deg[v]])
         /\ UNCHANGED <<R, async, x, busy>>
Next == Begin \/ Read \/ Write \/ Sweep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Fixpoint == stop => FixWhy(R, Deg, x, P, Q, S, Thr, 0) = ""
Nonneg == \A v \in Idx : x[v] >= 0
Stops == <>stop
=============================================================================
