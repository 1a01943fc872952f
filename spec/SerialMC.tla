------------------------------ MODULE SerialMC ------------------------------
(* Histories of saving and loading; generates them for replay.               *)
EXTENDS Serial, TLC
CONSTANTS Slots, Files, Depth, Gen
VARIABLES s, next, ops
Init == s = SerInit /\ next = 1 /\ ops = <<>>
Names == <<"make", "write", "read", "save", "load">>
Next == /\ Len(ops) < Depth
        /\ \E k \in 1..5, slot \in Slots, file \in Files :
             /\ SerPre(s, Names[k], slot, file)
             /\ k \in {1, 2, 3} => file = 1
             /\ s' = SerPost(s, Names[k], slot, file, next)
             /\ next' = IF k = 1 THEN next + 1 ELSE next
             /\ ops' = Append(ops, <<k, slot, file>>)
Spec == Init /\ [][Next]_<<s, next, ops>>
(* every content is one that was made; the stream delivers in order *)
Known == \A k \in DOMAIN s.slot : s.slot[k] \in 1..(next - 1)
Written == LET w == SelectSeq(ops, LAMBDA o : o[1] = 2) r == SelectSeq(ops, LAMBDA o : o[1] = 3) IN Len(s.stream) = Len(w) - Len(r)
Emit == Gen /\ (Len(ops) = Depth) => PrintT(<<"BEHAVIOUR", <<2>>, ops>>)
=============================================================================
