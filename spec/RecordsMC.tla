----------------------------- MODULE RecordsMC -----------------------------
(* Model of the column representation: every operation that an algorithm can *)
(* perform through the iterators is done column by column, with a temporary  *)
(* record as algorithms use.  Checks that it always represents the sequence  *)
(* of whole records; generates operation histories for replay.               *)
EXTENDS Records, TLC
CONSTANTS Width, MaxLen, Keys, Depth, Gen, MaxA
VARIABLES recs, cols, tmp, ops, serial
vars == <<recs, cols, tmp, ops, serial>>
None == <<-1>>
Rec(k) == [c \in 1..Width |-> IF c = 1 THEN k ELSE 10 * serial + c]
(* column-wise counterparts *)
CAppend(C, x) == [c \in 1..Len(C) |-> Append(C[c], x[c])]
CPut(C, j, x) == [c \in 1..Len(C) |-> [C[c] EXCEPT ![j] = x[c]]]
CSwap(C, j, k) == [c \in 1..Len(C) |-> [C[c] EXCEPT ![j] = C[c][k], ![k] = C[c][j]]]
CGet(C, j) == [c \in 1..Len(C) |-> C[c][j]]
CResize(C, n) == [c \in 1..Len(C) |-> [j \in 1..n |-> IF j <= Len(C[c]) THEN C[c][j] ELSE 0]]
Init == recs = <<>> /\ cols = [c \in 1..Width |-> <<>>] /\ tmp = None /\ ops = <<>> /\ serial = 1
Log(k, a, b, key) == ops' = Append(ops, <<k, a, b, key>>)
Primitive ==      \* the steps algorithms are made of
  \/ \E k \in Keys : /\ Len(recs) < MaxLen
                     /\ recs' = Append(recs, Rec(k)) /\ cols' = CAppend(cols, Rec(k))
                     /\ serial' = serial + 1 /\ tmp' = tmp
  \/ \E j \in 1..Len(recs) : tmp' = recs[j] /\ tmp' = CGet(cols, j) /\ UNCHANGED <<recs, cols, serial>>
  \/ \E j \in 1..Len(recs) : /\ tmp # None
                             /\ recs' = Put(recs, j, tmp) /\ cols' = CPut(cols, j, tmp) /\ UNCHANGED <<tmp, serial>>
  \/ \E j, k \in 1..Len(recs) : recs' = Swap(recs, j, k) /\ cols' = CSwap(cols, j, k) /\ UNCHANGED <<tmp, serial>>
  \/ \E j, k \in 1..Len(recs) : recs' = Put(recs, j, recs[k]) /\ cols' = CPut(cols, j, CGet(cols, k)) /\ UNCHANGED <<tmp, serial>>
  \/ \E n \in 0..MaxLen : recs' = Resize(recs, n, Width) /\ cols' = CResize(cols, n) /\ UNCHANGED <<tmp, serial>>
Replayed ==       \* whole operations, for the histories that are replayed
  /\ UNCHANGED <<recs, cols, tmp>> /\ serial' = serial + 1
  /\ \E k \in 1..Len(Ops), a, b \in 0..MaxA, key \in Keys :
       /\ k \notin {2, 3, 4, 5, 6, 7} => b = 0
       /\ k \in {1, 2, 8, 10, 14, 15, 16, 17, 18, 19, 22, 23, 27, 29, 30} => a = 0
       /\ k \notin {1, 2, 3, 4, 5, 20, 21} => key = SetMin(Keys)
       /\ Log(k, a, b, key)
(* a last step of its own, so that a simulated history is emitted once *)
Done == Gen /\ Len(ops) = Depth /\ tmp = None /\ tmp' = <<0>> /\ UNCHANGED <<recs, cols, ops, serial>>
Next == \/ Done
        \/ Len(ops) < Depth /\ IF Gen THEN Replayed ELSE Primitive /\ Log(0, 0, 0, 0)
Spec == Init /\ [][Next]_vars
Refines == recs = Recs(cols)
Rect == \A c \in 1..Width : Len(cols[c]) = Len(recs)
(* no record is torn: column values of one record belong together *)
Whole == \A j \in 1..Len(recs) : \A c \in 2..Width : recs[j][c] - c = recs[j][2] - 2 \/ recs[j] = Zero(Width)
View == <<recs, cols, tmp, serial, Len(ops)>>
Emit == (Gen /\ tmp = <<0>>) => PrintT(<<"BEHAVIOUR", <<Width>>, ops>>)
=============================================================================
