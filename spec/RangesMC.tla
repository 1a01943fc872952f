------------------------------ MODULE RangesMC ------------------------------
(* The edge iterator visits every edge of every graph shape once, in order,  *)
(* wherever the empty neighbor lists are and wherever it starts.             *)
EXTENDS Ranges, TLC
CONSTANTS MaxN, MaxDeg
VARIABLES len, off, p, seen, done
vars == <<len, off, p, seen, done>>
Init == /\ \E n \in 0..MaxN : len \in [1..n -> 0..MaxDeg] /\ off \in 0..n
        /\ p = ItBegin(len, off) /\ seen = <<>> /\ done = FALSE
Visit == /\ ~done /\ p[1] # ItEnd(len)
         /\ seen' = Append(seen, p) /\ p' = ItNext(len, p) /\ UNCHANGED <<len, off, done>>
Stop == ~done /\ p[1] = ItEnd(len) /\ done' = TRUE /\ UNCHANGED <<len, off, p, seen>>
Next == Visit \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
All == FlattenSeq([j \in 1..(Len(len) - off) |-> [k \in 1..len[off + j] |-> <<off + j - 1, k - 1>>]])
Inside == p[1] < Len(len) => p[2] < len[p[1] + 1]       \* always dereferenceable
Prefix == seen = SubSeq(All, 1, Len(seen))
Exact == done => seen = All
Terminates == <>done
=============================================================================
