------------------------------- MODULE Atomic -------------------------------
(* Linearizability of recorded operations on one shared variable and on      *)
(* bits.  An operation is a record with the times b and e at which it began  *)
(* and ended (all different), its name, argument and results.                *)
EXTENDS Graph
RECURSIVE BitOr(_, _)
BitOr(x, y) == IF x = 0 THEN y ELSE IF y = 0 THEN x ELSE 2 * BitOr(x \div 2, y \div 2) + (IF x % 2 = 1 \/ y % 2 = 1 THEN 1 ELSE 0)
(* what the operation does to the value, and whether its results say so      *)
After(o, v) == CASE o.op = "store" -> o.a
                 [] o.op = "cas" -> IF v = o.x THEN o.a ELSE v
                 [] o.op = "add" -> v + o.a
                 [] o.op = "or" -> BitOr(v, o.a)
                 [] OTHER -> v
Right(o, v) == CASE o.op = "store" -> TRUE
                 [] o.op = "cas" -> o.r = (IF v = o.x THEN 1 ELSE 0) /\ o.y = (IF v = o.x THEN o.x ELSE v)
                 [] OTHER -> o.r = v
RECURSIVE Lin(_, _, _, _)
Lin(H, R, v, final) ==
  IF R = {} THEN v = final
  ELSE \E o \in R : /\ \A p \in R \ {o} : H[p].e > H[o].b
                    /\ Right(H[o], v) /\ Lin(H, R \ {o}, After(H[o], v), final)
Linearizable(H, v, final) == Lin(H, DOMAIN H, v, final)
(* fetch-adds of positive amounts only: the values seen form one chain       *)
ChainOk(H, v, final) ==
  LET Seen == {H[j].r : j \in 1..Len(H)}
      Made == {H[j].r + H[j].a : j \in 1..Len(H)} IN
  Cardinality(Seen) = Len(H) /\ (Seen \ {v}) \cup {final} = Made /\ (H = <<>> \/ v \in Seen) /\ (H = <<>> => final = v)
(* Operations on one bit, clear at the beginning: a get or a set that saw it *)
(* clear (r = 0) or set (r = 1); final: is it set at the end.                *)
BitOk(H, final) ==
  LET Sets == {j \in DOMAIN H : H[j].op = "set"}
      First == {j \in Sets : H[j].r = 0} IN
  /\ final = (IF Sets = {} THEN 0 ELSE 1)
  /\ Cardinality(First) = (IF Sets = {} THEN 0 ELSE 1)
  /\ IF Sets = {} THEN \A j \in DOMAIN H : H[j].r = 0
     ELSE \A f \in First : \A g \in {j \in DOMAIN H : H[j].op = "get" /\ H[j].r = 0} \cup {f} : \A t \in {j \in DOMAIN H : H[j].r = 1} \cup {f} : H[g].b < H[t].e
=============================================================================
