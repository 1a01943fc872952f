------------------------------ MODULE KruskalMC ------------------------------
(* Kruskal's and Prim's algorithms on every small weighted graph: edges are  *)
(* taken in any order that agrees with the weights (Kruskal), or any         *)
(* lightest pending entry of the queue is taken (Prim).  What they build is  *)
(* an optimal forest by definition, and the certificate used on recorded     *)
(* results accepts exactly the optimal ones.                                 *)
EXTENDS SpanningForest
CONSTANTS N, MaxM, Weight
V == 0..(N - 1)
VARIABLES E, max, how, left, T, lab, done, dist, pred, Q
vars == <<E, max, how, left, T, lab, done, dist, pred, Q>>
Inf == 1000000
Seqs == UNION {[1..m -> {<<u, v, w>> : u \in V, v \in V, w \in Weight}] : m \in 0..MaxM}
Canonical(S) == \A j \in 1..(Len(S) - 1) : S[j][1] < S[j + 1][1] \/ (S[j][1] = S[j + 1][1] /\ (S[j][2] < S[j + 1][2] \/ (S[j][2] = S[j + 1][2] /\ S[j][3] <= S[j + 1][3])))
Init == /\ E \in {S \in Seqs : Canonical(S)} /\ how \in {"kruskal", "prim"} /\ max \in (IF how = "kruskal" THEN BOOLEAN ELSE {FALSE})
        /\ left = 1..Len(E) /\ T = {} /\ lab = Own(N)
        /\ done = {} /\ dist = [v \in V |-> IF v = 0 THEN 0 ELSE Inf] /\ pred = [v \in V |-> -1] /\ Q = IF how = "prim" THEN {<<0, 0>>} ELSE {}
Take == \E j \in left :
  /\ how = "kruskal" /\ \A k \in left : IF max THEN E[j][3] >= E[k][3] ELSE E[j][3] <= E[k][3]
  /\ left' = left \ {j}
  /\ LET r == MergeAll(<<E[j]>>, lab, 0, 1) IN lab' = r[1] /\ T' = (IF r[2] = 1 THEN T \cup {j} ELSE T)
  /\ UNCHANGED <<E, max, how, done, dist, pred, Q>>
(* edges in both directions *)
Ends(u) == {<<E[j][2], E[j][3], j>> : j \in {k \in 1..Len(E) : E[k][1] = u}} \cup {<<E[j][1], E[j][3], j>> : j \in {k \in 1..Len(E) : E[k][2] = u}}
Pop == \E q \in Q :
  /\ how = "prim" /\ \A p \in Q : q[1] <= p[1]
  /\ IF q[2] \in done THEN Q' = Q \ {q} /\ UNCHANGED <<done, dist, pred>>
     ELSE LET u == q[2]
              Best(v) == {x \in Ends(u) : x[1] = v /\ \A y \in Ends(u) : y[1] = v => x[2] <= y[2]}
              Better == {v \in V \ (done \cup {u}) : \E x \in Best(v) : x[2] < dist[v]}
              Wt(v) == (CHOOSE x \in Best(v) : TRUE)[2] IN
          /\ done' = done \cup {u}
          /\ dist' = [v \in V |-> IF v \in Better THEN Wt(v) ELSE dist[v]]
          /\ pred' = [v \in V |-> IF v \in Better THEN u ELSE pred[v]]
          /\ Q' = (Q \ {q}) \cup {<<Wt(v), v>> : v \in Better}
  /\ UNCHANGED <<E, max, how, left, T, lab>>
Next == Take \/ Pop
Spec == Init /\ [][Next]_vars
Kruskal == how = "kruskal" /\ left = {} => IsOptimal(N, E, max, T)
(* part of an optimal forest all along *)
Greedy == how = "kruskal" => \E Y \in Forests(N, E) : T \subseteq Y /\ IsOptimal(N, E, max, Y)
(* the component of the source as a graph of its own *)
Reach == CHOOSE C \in Comps(N, E) : 0 \in C
Inside == SelectSeq(E, LAMBDA e : e[1] \in Reach)
TreeEdges == SetToSeq({<<pred[v], v, dist[v]>> : v \in {x \in V : pred[x] # -1}})
Prim == how = "prim" /\ Q = {} =>
          /\ {v \in V : pred[v] # -1} = Reach \ {0} /\ Acyclic(N, TreeEdges)
          /\ \A Y \in Forests(N, Inside) : Total(TreeEdges) <= Total(SubSeqOf(Inside, Y))
          /\ \A v \in V : pred[v] # -1 => \E x \in Ends(pred[v]) : x[1] = v /\ x[2] = dist[v]
(* checked once per graph *)
Certificate == how = "kruskal" /\ left = 1..Len(E) => \A X \in SUBSET (1..Len(E)) : (ForestWhy(N, E, max, SubSeqOf(E, X)) = "") = IsOptimal(N, E, max, X)
=============================================================================
