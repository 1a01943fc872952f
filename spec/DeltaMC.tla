------------------------------- MODULE DeltaMC -------------------------------
(* Parallel delta-stepping at the level of its shared-memory steps: relaxing *)
(* an edge reads the two distances one after the other, then tries to        *)
(* compare-and-swap the target's and, if that succeeds, puts the target into *)
(* the bin of its new distance.  Every small weighted graph, every width.    *)
EXTENDS Weighted, TLC
CONSTANTS N, WeightsOf, Deltas, MaxEdges
V == 0..(N - 1)
VARIABLES E, src, delta, dist, bins, top, frontier, tasks, mode
vars == <<E, src, delta, dist, bins, top, frontier, tasks, mode>>
MaxBin == N * SetMax(WeightsOf)
AllEdges == {<<u, v, w>> : u \in V, v \in V, w \in WeightsOf}
Init == /\ E \in {X \in SUBSET {e \in AllEdges : e[1] # e[2]} : Cardinality(X) <= MaxEdges /\ \A e, f \in X : e[1] = f[1] /\ e[2] = f[2] => e = f}
        /\ src = 0 /\ delta \in Deltas
        /\ dist = [v \in V |-> IF v = src THEN 0 ELSE Inf]
        /\ bins = [b \in 0..MaxBin |-> {}] /\ frontier = {src} /\ top = 0 /\ tasks = {} /\ mode = "work"
(* a vertex of the frontier is expanded unless it was settled in an earlier bin *)
Expand == \E u \in frontier :
  /\ mode = "work" /\ frontier' = frontier \ {u}
  /\ tasks' = tasks \cup (IF dist[u] >= delta * top THEN {[e |-> e, at |-> 0, next |-> 0, prev |-> 0] : e \in {x \in E : x[1] = u}} ELSE {})
  /\ UNCHANGED <<E, src, delta, dist, bins, top, mode>>
ReadFrom == \E t \in tasks : t.at = 0 /\ tasks' = (tasks \ {t}) \cup {[t EXCEPT !.at = 1, !.next = dist[t.e[1]] + t.e[3]]}
            /\ UNCHANGED <<E, src, delta, dist, bins, top, frontier, mode>>
ReadTo == \E t \in tasks : t.at = 1 /\ tasks' = (tasks \ {t}) \cup (IF Lt(t.next, dist[t.e[2]]) THEN {[t EXCEPT !.at = 2, !.prev = dist[t.e[2]]]} ELSE {})
          /\ UNCHANGED <<E, src, delta, dist, bins, top, frontier, mode>>
Swap == \E t \in tasks : t.at = 2 /\
  /\ IF dist[t.e[2]] = t.prev
     THEN dist' = [dist EXCEPT ![t.e[2]] = t.next] /\ tasks' = (tasks \ {t}) \cup {[t EXCEPT !.at = 3]}
     ELSE UNCHANGED dist /\ tasks' = (tasks \ {t}) \cup (IF Lt(t.next, dist[t.e[2]]) THEN {[t EXCEPT !.prev = dist[t.e[2]]]} ELSE {})
  /\ UNCHANGED <<E, src, delta, bins, top, frontier, mode>>
Put == \E t \in tasks : t.at = 3 /\ tasks' = tasks \ {t} /\ bins' = [bins EXCEPT ![t.next \div delta] = @ \cup {t.e[2]}]
       /\ UNCHANGED <<E, src, delta, dist, top, frontier, mode>>
Barrier == /\ mode = "work" /\ frontier = {} /\ tasks = {}
           /\ LET full == {b \in top..MaxBin : bins[b] # {}} IN
              IF full = {} THEN mode' = "done" /\ UNCHANGED <<bins, top, frontier>>
              ELSE top' = SetMin(full) /\ frontier' = bins[SetMin(full)] /\ bins' = [bins EXCEPT ![SetMin(full)] = {}] /\ UNCHANGED mode
           /\ UNCHANGED <<E, src, delta, dist, tasks>>
Next == Expand \/ ReadFrom \/ ReadTo \/ Swap \/ Put \/ Barrier
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
True == Dist(E, V, src)
UpperBound == \A v \in V : dist[v] # Inf => ~ Lt(dist[v], True[v]) /\ True[v] # Inf
NoneBehind == \A b \in 0..MaxBin : bins[b] # {} => b >= top
Done == mode = "done" => dist = True
(* the certificate the conformance check uses agrees with the definition *)
Certificate == mode = "done" => \A v \in V \ {src} : \A x \in {dist[v] + 1, IF dist[v] = Inf THEN 1 ELSE dist[v] - 1, Inf, dist[v]} :
                 (DistWhy(E, V, src, [dist EXCEPT ![v] = x]) = "") = (x = True[v])
Terminates == <>(mode = "done")
=============================================================================
