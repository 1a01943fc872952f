----------------------------- MODULE JaccardMC -----------------------------
(* Rating every edge <<u, v>>, u < v, of every small undirected graph: the   *)
(* sorted neighbor lists are merged, the common elements counted, and the    *)
(* size of the union derived from the degrees.                               *)
EXTENDS Integers, FiniteSets, Sequences, SequencesExt
CONSTANTS N
V == 0..(N - 1)
VARIABLES S, todo, cur, i, j, num, rate, count
vars == <<S, todo, cur, i, j, num, rate, count>>
Row(v) == SetToSortSeq(S[v], LAMBDA a, b : a < b)
Edges == {e \in V \X V : e[1] < e[2] /\ e[2] \in S[e[1]]}
Init == /\ \E F \in SUBSET {p \in V \X V : p[1] < p[2]} : S = [x \in V |-> {y \in V : <<x, y>> \in F \/ <<y, x>> \in F}]
        /\ todo = Edges /\ cur = <<>> /\ i = 0 /\ j = 0 /\ num = 0 /\ rate = [e \in {} |-> <<0, 0>>] /\ count = 0
First == CHOOSE e \in todo : \A f \in todo : e[1] < f[1] \/ (e[1] = f[1] /\ e[2] <= f[2])
Take == cur = <<>> /\ todo # {} /\ cur' = First /\ todo' = todo \ {First} /\ i' = 1 /\ j' = 1 /\ num' = 0 /\ UNCHANGED <<S, rate, count>>
Merge == /\ cur # <<>> /\ LET a == Row(cur[1]) b == Row(cur[2]) IN
            IF i > Len(a) \/ j > Len(b) THEN
              /\ rate' = [e \in DOMAIN rate \cup {cur} |-> IF e = cur THEN <<num, Len(a) + Len(b) - num>> ELSE rate[e]]
              /\ count' = count + 1 /\ cur' = <<>> /\ UNCHANGED <<i, j, num>>
            ELSE /\ i' = (IF a[i] <= b[j] THEN i + 1 ELSE i) /\ j' = (IF b[j] <= a[i] THEN j + 1 ELSE j)
                 /\ num' = num + (IF a[i] = b[j] THEN 1 ELSE 0) /\ UNCHANGED <<rate, count, cur>>
         /\ UNCHANGED <<S, todo>>
Next == Take \/ Merge
Spec == Init /\ [][Next]_vars
Exact == \A e \in DOMAIN rate : rate[e] = <<Cardinality(S[e[1]] \cap S[e[2]]), Cardinality(S[e[1]] \cup S[e[2]])>> /\ rate[e][2] > 0
All == todo = {} /\ cur = <<>> => DOMAIN rate = Edges /\ count = Cardinality(Edges)
=============================================================================
