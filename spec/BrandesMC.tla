------------------------------ MODULE BrandesMC ------------------------------
(* The parallel betweenness computation for one source at the level of its   *)
(* shared-memory steps, for every small graph (with Parallel, also parallel  *)
(* edges): an edge of the frontier reads the level of its target; when it is *)
(* unset or the current one it adds the path count and then marks the edge;  *)
(* when it was unset it tries to set it (compare-and-swap) and, if it wins,  *)
(* puts the target in the next frontier.  The levels are then retired in     *)
(* reverse order, each vertex adding up the dependencies over its marked     *)
(* edges.  Fractions are exact: in units of 1/K, K a multiple of every path  *)
(* count.                                                                    *)
EXTENDS Brandes, TLC
CONSTANTS N, MaxEdges, Parallel, K
V == 0..(N - 1)
VARIABLES R, root, lev, cnt, succ, lvl, q2, retired, ops, phase, delta, todo
vars == <<R, root, lev, cnt, succ, lvl, q2, retired, ops, phase, delta, todo>>
RECURSIVE Rows(_, _)
(* the rows of a set of edges <<u, v, copies>> *)
Rows(u, S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE x \in S : TRUE IN [j \in 1..e[3] |-> e[2]] \o Rows(u, S \ {e})
Graphs == {E \in SUBSET (V \X V \X (IF Parallel THEN {1, 2} ELSE {1})) : Cardinality(E) <= MaxEdges /\ \A e, f \in E : e[1] = f[1] /\ e[2] = f[2] => e = f}
Tasks(u) == {[u |-> u, j |-> j, pc |-> "read"] : j \in 1..Len(R[u])}
Init == /\ \E E \in Graphs : R = [u \in V |-> Rows(u, {e \in E : e[1] = u})]
        /\ root \in V /\ lev = [v \in V |-> IF v = root THEN 0 ELSE Inf] /\ cnt = [v \in V |-> IF v = root THEN 1 ELSE 0]
        /\ succ = {} /\ lvl = 1 /\ q2 = <<>> /\ retired = <<<<root>>>> /\ phase = "forward"
        /\ ops = {[u |-> root, j |-> j, pc |-> "read"] : j \in 1..Len(R[root])} /\ delta = [v \in V |-> 0] /\ todo = {}
To(o) == R[o.u][o.j]
Set(o, f) == ops' = (ops \ {o}) \cup f
Forward == \E o \in ops :
  /\ phase = "forward"
  /\ LET v == To(o) IN
     CASE o.pc = "read" -> Set(o, IF lev[v] = Inf THEN {[o EXCEPT !.pc = "add0"]} ELSE IF lev[v] = lvl THEN {[o EXCEPT !.pc = "add"]} ELSE {}) /\ UNCHANGED <<lev, cnt, succ, q2>>
       [] o.pc \in {"add0", "add"} -> cnt' = [cnt EXCEPT ![v] = @ + cnt[o.u]] /\ Set(o, {[o EXCEPT !.pc = IF o.pc = "add0" THEN "mark0" ELSE "mark"]}) /\ UNCHANGED <<lev, succ, q2>>
       [] o.pc \in {"mark0", "mark"} -> succ' = succ \cup {<<o.u, o.j>>} /\ Set(o, IF o.pc = "mark0" THEN {[o EXCEPT !.pc = "cas"]} ELSE {}) /\ UNCHANGED <<lev, cnt, q2>>
       [] o.pc = "cas" -> /\ Set(o, {}) /\ UNCHANGED <<cnt, succ>>
                          /\ IF lev[v] = Inf THEN lev' = [lev EXCEPT ![v] = lvl] /\ q2' = Append(q2, v) ELSE UNCHANGED <<lev, q2>>
  /\ UNCHANGED <<R, root, lvl, retired, phase, delta, todo>>
NextLevel == /\ phase = "forward" /\ ops = {} /\ lvl' = lvl + 1 /\ q2' = <<>>
             /\ IF q2 = <<>> THEN phase' = "backward" /\ todo' = Range(retired[Len(retired)]) /\ UNCHANGED <<ops, retired>>
                ELSE retired' = Append(retired, q2) /\ ops' = UNION {Tasks(q2[j]) : j \in 1..Len(q2)} /\ UNCHANGED <<phase, todo>>
             /\ UNCHANGED <<R, root, lev, cnt, succ, delta>>
Backward == \E u \in todo :
  /\ phase = "backward" /\ todo' = todo \ {u}
  /\ delta' = [delta EXCEPT ![u] = AddUp([j \in 1..Len(R[u]) |-> j], LAMBDA j : IF <<u, j>> \in succ THEN ((K + delta[R[u][j]]) * cnt[u]) \div cnt[R[u][j]] ELSE 0, Len(R[u]))]
  /\ UNCHANGED <<R, root, lev, cnt, succ, lvl, q2, retired, ops, phase>>
PrevLevel == /\ phase = "backward" /\ todo = {}
             /\ IF Len(retired) = 1 THEN phase' = "done" /\ UNCHANGED <<retired, todo>>
                ELSE retired' = SubSeq(retired, 1, Len(retired) - 1) /\ todo' = Range(retired[Len(retired) - 1]) /\ UNCHANGED phase
             /\ UNCHANGED <<R, root, lev, cnt, succ, lvl, q2, ops, delta>>
Next == Forward \/ NextLevel \/ Backward \/ PrevLevel
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Adj == [v \in V |-> Range(R[v])]
L == Levels(Adj, root)
OnceQueued == \A j, k \in 1..Len(q2) : j # k => q2[j] # q2[k]
Counted == phase # "forward" => /\ lev = L
                                /\ \A v \in V : cnt[v] = Cardinality(PathsOf(R, L, root, v)) /\ cnt[v] = Sigma(Incoming(R), L, root)[v]
                                /\ \A v \in V : cnt[v] # 0 => K % cnt[v] = 0
Correct == phase = "done" => \A v \in V : delta[v] = ByDefinition(R, L, root, v, K) /\ <<delta[v], 0>> = Dependencies(R, Incoming(R), root, K)[v]
Terminates == <>(phase = "done")
=============================================================================
