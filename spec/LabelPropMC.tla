----------------------------- MODULE LabelPropMC -----------------------------
(* Label propagation, for every small symmetric graph: each vertex of the    *)
(* frontier reads its label once and lowers its neighbors' (compare-and-swap *)
(* in a loop); whoever lowers a label puts the vertex in the next frontier   *)
(* unless its bit says that it is there.                                     *)
EXTENDS Components, TLC
CONSTANTS N, MaxEdges
V == 0..(N - 1)
VARIABLES A, lab, cur, nxt, seen, ops
vars == <<A, lab, cur, nxt, seen, ops>>
Init == /\ \E E \in {F \in SUBSET {p \in V \X V : p[1] < p[2]} : Cardinality(F) <= MaxEdges} : A = [u \in V |-> {v \in V : <<u, v>> \in E \/ <<v, u>> \in E}]
        /\ lab = [v \in V |-> v] /\ cur = V /\ nxt = <<>> /\ seen = {} /\ ops = {}
Set(o, f) == ops' = (ops \ {o}) \cup f
Start == \E x \in cur : /\ cur' = cur \ {x} /\ ops' = ops \cup {[x |-> x, y |-> y, l |-> lab[x], pc |-> "look", p |-> 0] : y \in A[x]}
                        /\ UNCHANGED <<A, lab, nxt, seen>>
Step == \E o \in ops :
  /\ CASE o.pc = "look" -> Set(o, IF o.l < lab[o.y] THEN {[o EXCEPT !.pc = "read"]} ELSE {}) /\ UNCHANGED <<lab, nxt, seen>>
       [] o.pc = "read" -> Set(o, IF lab[o.y] > o.l THEN {[o EXCEPT !.pc = "cas", !.p = lab[o.y]]} ELSE {}) /\ UNCHANGED <<lab, nxt, seen>>
       [] o.pc = "cas" -> IF lab[o.y] = o.p THEN lab' = [lab EXCEPT ![o.y] = o.l] /\ Set(o, {[o EXCEPT !.pc = "get", !.p = 0]}) /\ UNCHANGED <<nxt, seen>>
                          ELSE Set(o, {[o EXCEPT !.pc = "read", !.p = 0]}) /\ UNCHANGED <<lab, nxt, seen>>
       [] o.pc = "get" -> Set(o, IF o.y \in seen THEN {} ELSE {[o EXCEPT !.pc = "set"]}) /\ UNCHANGED <<lab, nxt, seen>>
       [] o.pc = "set" -> seen' = seen \cup {o.y} /\ Set(o, {}) /\ nxt' = (IF o.y \in seen THEN nxt ELSE Append(nxt, o.y)) /\ UNCHANGED lab
  /\ UNCHANGED <<A, cur>>
Done == cur = {} /\ ops = {} /\ nxt = <<>>
Swap == /\ cur = {} /\ ops = {} /\ nxt # <<>> /\ cur' = {nxt[j] : j \in 1..Len(nxt)} /\ nxt' = <<>> /\ seen' = {} /\ UNCHANGED <<A, lab, ops>>
Next == Start \/ Step \/ Swap
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sound == \A v \in V : lab[v] <= v /\ lab[v] \in Component(Sym(A), v)
Once == \A j, k \in 1..Len(nxt) : j # k => nxt[j] # nxt[k]
Complete == Done => LabelWhy(A, Sym(A), lab) = "" /\ \A v \in V : lab[v] = CHOOSE x \in Component(A, v) : \A y \in Component(A, v) : x <= y
Terminates == <>Done
=============================================================================
