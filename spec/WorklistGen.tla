----------------------------- MODULE WorklistGen ----------------------------
(* Histories to replay on a work list: 0 takes the next item, 1 + l pushes   *)
(* one at level l.                                                           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Levels, Depth
VARIABLE hist
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E k \in 0..(Levels + 1) : hist' = Append(hist, <<k>>)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(<<"BEHAVIOUR", <<Levels>>, hist>>)
=============================================================================
