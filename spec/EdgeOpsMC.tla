----------------------------- MODULE EdgeOpsMC -----------------------------
(* Sequences of clean-up passes over small edge lists: nothing is invented,  *)
(* and each pass establishes what it names.  Also generates pass histories.  *)
EXTENDS EdgeOps, TLC
CONSTANTS MaxN, MaxM, Weights, Depth, Gen
VARIABLES n, E0, cur, ops
vars == <<n, E0, cur, ops>>
Lists == UNION {[1..m -> (0..(n - 1)) \X (0..(n - 1)) \X Weights] : m \in 0..MaxM}
Init == /\ n \in 1..MaxN /\ E0 = <<>> /\ cur = <<>> /\ ops = <<>>
Grow == /\ ops = <<>> /\ Len(E0) < MaxM
        /\ \E u, v \in 0..(n - 1), w \in Weights : E0' = Append(E0, <<u, v, w>>)
        /\ cur' = E0' /\ UNCHANGED <<n, ops>>
Perms(m) == {p \in [1..m -> 1..m] : \A x, y \in 1..m : x # y => p[x] # p[y]}
Arrangements(E) == {[j \in 1..Len(E) |-> E[p[j]]] : p \in Perms(Len(E))}
Side(c) == IF c = 0 THEN "predecessor" ELSE "successor"
(* pass numbers: 0/1 sort, 2/3 stable, 4/5 lexical, 6/7 lexical stable, 8..11 triangular, 12 uniq, 13 no loops, 14 relabel, 15 degrees, 16.. relabel by degree *)
Result(op, E, F) ==
  CASE op \in 0..1 -> SortOK(E, F, op)
    [] op \in 2..3 -> StableOK(E, F, op - 2)
    [] op \in 4..5 -> LexOK(E, F, op - 4)
    [] op \in 6..7 -> LexStableOK(E, F, op - 6)
Apply == /\ Len(ops) < Depth
         /\ \E op \in 0..15 :
              /\ ops' = Append(ops, op)
              /\ IF Gen THEN cur' = cur
                 ELSE CASE op \in 0..7 -> \E F \in Arrangements(cur) : Result(op, cur, F) /\ cur' = F
                        [] op \in 8..11 -> cur' = Triangular(cur, (op - 8) \div 2, Side((op - 8) % 2))
                        [] op = 12 -> cur' = Uniq(cur)
                        [] op = 13 -> cur' = NoLoops(cur)
                        [] OTHER -> cur' = cur
         /\ UNCHANGED <<n, E0>>
Next == Grow \/ Apply
Spec == Init /\ [][Next]_vars
Same(x, y) == x = y \/ x = Flip(y)
(* nothing is invented, and an edge keeps its attributes *)
NoInvention == \A j \in 1..Len(cur) : \E k \in 1..Len(E0) : Same(cur[j], E0[k])
NoDuplication == \A j \in 1..Len(cur) : Cardinality({k \in 1..Len(cur) : Same(cur[k], cur[j])}) <= Cardinality({k \in 1..Len(E0) : Same(E0[k], cur[j])})
LastOp(S) == S[Len(S)]
Loses == {ops[k] : k \in 1..Len(ops)} \cap {12, 13} = {} => Len(cur) = Len(E0)
Named == ops # <<>> => CASE LastOp(ops) = 13 -> \A j \in 1..Len(cur) : cur[j][1] # cur[j][2]
                         [] LastOp(ops) = 12 -> \A j \in 1..(Len(cur) - 1) : <<cur[j][1], cur[j][2]>> # <<cur[j + 1][1], cur[j + 1][2]>>
                         [] LastOp(ops) \in 8..11 -> \A j \in 1..Len(cur) : LET lo == Lower((LastOp(ops) - 8) \div 2, Side((LastOp(ops) - 8) % 2)) IN IF lo THEN cur[j][2] <= cur[j][1] ELSE cur[j][1] <= cur[j][2]
                         [] OTHER -> TRUE
SortedUniq == Len(ops) >= 2 /\ LastOp(ops) = 12 /\ ops[Len(ops) - 1] \in 4..7 => Distinct([j \in 1..Len(cur) |-> <<cur[j][1], cur[j][2]>>])
Emit == Gen /\ Len(ops) = Depth => PrintT(<<"BEHAVIOUR", <<n>> \o ops, E0>>)
=============================================================================
