------------------------------ MODULE AfforestMC ------------------------------
(* Afforest at the level of its shared-memory steps, for every small graph,  *)
(* every choice of the edges linked in the first rounds and every label      *)
(* skipped afterwards: concurrent links (read, read, read the parent of the  *)
(* higher label, compare-and-swap, retry), path compression by one task per  *)
(* vertex with separate reads and writes, then links of the remaining edges  *)
(* and of the incoming edges (Directed) from the vertices that do not have   *)
(* the skipped label, then compression again.                                *)
EXTENDS Components, TLC
CONSTANTS N, MaxEdges, Directed
V == 0..(N - 1)
VARIABLES A, first, comp, phase, ops, todo, skip
vars == <<A, first, comp, phase, ops, todo, skip>>
All == UNION {{u} \X A[u] : u \in V}
Op(u, v) == [u |-> u, v |-> v, pc |-> "r1", p1 |-> 0, p2 |-> 0, ph |-> 0]
Graphs == {E \in SUBSET {p \in V \X V : p[1] # p[2]} : Cardinality(E) <= MaxEdges /\ (Directed \/ \A p \in E : <<p[2], p[1]>> \in E)}
Init == /\ \E E \in Graphs : A = [u \in V |-> {v \in V : <<u, v>> \in E}]
        /\ first \in SUBSET All
        /\ comp = [v \in V |-> v] /\ phase = "link1" /\ todo = {} /\ skip = 0
        /\ ops = {Op(e[1], e[2]) : e \in first}
Larger(x, y) == IF x > y THEN x ELSE y
High(o) == Larger(o.p1, o.p2)
Low(o) == o.p1 + o.p2 - High(o)
Set(o, f) == ops' = (ops \ {o}) \cup f
(* one step of a link *)
Link == \E o \in {x \in ops : x.pc # "skip"} :
  /\ phase \in {"link1", "link2"}
  /\ CASE o.pc = "r1" -> Set(o, {[o EXCEPT !.pc = "r2", !.p1 = comp[o.u]]}) /\ UNCHANGED comp
       [] o.pc = "r2" -> LET p == comp[o.v] IN Set(o, IF p = o.p1 THEN {} ELSE {[o EXCEPT !.pc = "rh", !.p2 = p]}) /\ UNCHANGED comp
       [] o.pc = "rh" -> LET ph == comp[High(o)] IN
                         Set(o, IF ph = Low(o) THEN {} ELSE {[o EXCEPT !.pc = IF ph = High(o) THEN "cas" ELSE "n1", !.ph = ph]}) /\ UNCHANGED comp
       [] o.pc = "cas" -> IF comp[High(o)] = High(o) THEN comp' = [comp EXCEPT ![High(o)] = Low(o)] /\ Set(o, {})
                          ELSE Set(o, {[o EXCEPT !.pc = "n1"]}) /\ UNCHANGED comp
       [] o.pc = "n1" -> Set(o, {[o EXCEPT !.pc = "n2", !.v = Low(o), !.p1 = comp[o.ph], !.p2 = 0, !.ph = 0]}) /\ UNCHANGED comp
       [] o.pc = "n2" -> LET p == comp[o.v] IN Set(o, IF p = o.p1 THEN {} ELSE {[o EXCEPT !.pc = "rh", !.p2 = p]}) /\ UNCHANGED comp
  /\ UNCHANGED <<A, first, phase, todo, skip>>
LinkEnd == /\ phase \in {"link1", "link2"} /\ ops = {} /\ phase' = (IF phase = "link1" THEN "comp1" ELSE "comp2")
           /\ todo' = {[n |-> n, pc |-> "test", bar |-> 0] : n \in V} /\ UNCHANGED <<A, first, comp, ops, skip>>
(* one step of the compression of one vertex (only its task writes its label) *)
Compress == \E o \in todo :
  /\ phase \in {"comp1", "comp2"}
  /\ CASE o.pc = "test" -> todo' = (todo \ {o}) \cup (IF comp[o.n] = comp[comp[o.n]] THEN {} ELSE {[o EXCEPT !.pc = "read"]}) /\ UNCHANGED comp
       [] o.pc = "read" -> todo' = (todo \ {o}) \cup {[o EXCEPT !.pc = "store", !.bar = comp[comp[o.n]]]} /\ UNCHANGED comp
       [] o.pc = "store" -> todo' = (todo \ {o}) \cup {[o EXCEPT !.pc = "test", !.bar = 0]} /\ comp' = [comp EXCEPT ![o.n] = o.bar]
  /\ UNCHANGED <<A, first, phase, ops, skip>>
(* the second round starts with a task per vertex, which looks at its label when it runs *)
CompressEnd == /\ phase \in {"comp1", "comp2"} /\ todo = {}
               /\ IF phase = "comp1" THEN phase' = "link2" /\ skip' \in {comp[v] : v \in V} /\ ops' = {[u |-> u, v |-> 0, pc |-> "skip", p1 |-> 0, p2 |-> 0, ph |-> 0] : u \in V}
                  ELSE phase' = "done" /\ UNCHANGED <<skip, ops>>
               /\ UNCHANGED <<A, first, comp, todo>>
Rest(u) == {Op(u, v) : v \in {w \in A[u] : <<u, w>> \notin first}} \cup (IF Directed THEN {Op(u, v) : v \in {w \in V : u \in A[w]}} ELSE {})
Skip == \E o \in ops : /\ phase = "link2" /\ o.pc = "skip" /\ Set(o, IF comp[o.u] = skip THEN {} ELSE Rest(o.u))
                       /\ UNCHANGED <<A, first, comp, phase, todo, skip>>
Next == Link \/ Skip \/ LinkEnd \/ Compress \/ CompressEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* a label never grows beyond the vertex and stays within the component *)
Sound == \A v \in V : comp[v] <= v /\ comp[v] \in Component(Sym(A), v)
Complete == phase = "done" => LabelWhy(A, Sym(A), comp) = ""
Compressed == phase = "done" => \A v \in V : comp[comp[v]] = comp[v]
Terminates == <>(phase = "done")
=============================================================================
