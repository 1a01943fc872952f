-------------------------------- MODULE SvMC --------------------------------
(* Shiloach-Vishkin with plain reads and writes, for every small graph: in   *)
(* one round every edge, concurrently, reads the labels of its ends, tests   *)
(* whether the higher one is a root, raises the flag and hooks it; labels    *)
(* are then compressed.  At most N rounds are made.                          *)
EXTENDS Components, TLC
CONSTANTS N, MaxEdges
V == 0..(N - 1)
VARIABLES A, comp, change, round, ops, phase
vars == <<A, comp, change, round, ops, phase>>
Op(u, v) == [u |-> u, v |-> v, pc |-> "r1", cu |-> 0, cv |-> 0]
All == UNION {{u} \X A[u] : u \in V}
Init == /\ \E E \in {F \in SUBSET {p \in V \X V : p[1] # p[2]} : Cardinality(F) <= MaxEdges} : A = [u \in V |-> {v \in V : <<u, v>> \in E}]
        /\ comp = [v \in V |-> v] /\ change = TRUE /\ round = 0 /\ ops = {} /\ phase = "head"
Top  == /\ phase = "head"
        /\ IF round < N /\ change THEN /\ change' = FALSE /\ phase' = "round" /\ ops' = {Op(e[1], e[2]) : e \in All}
                                  ELSE phase' = "done" /\ UNCHANGED <<change, ops>>
        /\ UNCHANGED <<A, comp, round>>
Larger(x, y) == IF x > y THEN x ELSE y
High(o) == Larger(o.cu, o.cv)
Low(o) == o.cu + o.cv - High(o)
Set(o, f) == ops' = (ops \ {o}) \cup f
Hook == \E o \in ops :
  /\ phase = "round"
  /\ CASE o.pc = "r1" -> Set(o, {[o EXCEPT !.pc = "r2", !.cu = comp[o.u], !.u = 0]}) /\ UNCHANGED <<comp, change>>
       [] o.pc = "r2" -> LET x == comp[o.v] IN Set(o, IF x = o.cu THEN {} ELSE {[o EXCEPT !.pc = "test", !.cv = x, !.v = 0]}) /\ UNCHANGED <<comp, change>>
       [] o.pc = "test" -> Set(o, IF comp[High(o)] = High(o) THEN {[o EXCEPT !.pc = "write"]} ELSE {}) /\ UNCHANGED <<comp, change>>
       [] o.pc = "write" -> Set(o, {}) /\ change' = TRUE /\ comp' = [comp EXCEPT ![High(o)] = Low(o)]
  /\ UNCHANGED <<A, round, phase>>
RECURSIVE Root(_, _)
Root(f, v) == IF f[v] = v THEN v ELSE Root(f, f[v])
End == /\ phase = "round" /\ ops = {} /\ phase' = "head" /\ round' = round + 1 /\ comp' = [v \in V |-> Root(comp, v)]
       /\ UNCHANGED <<A, change, ops>>
Next == Top \/ Hook \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sound == \A v \in V : comp[v] <= v /\ comp[v] \in Component(Sym(A), v)
Complete == phase = "done" => LabelWhy(A, Sym(A), comp) = ""
Terminates == <>(phase = "done")
=============================================================================
