------------------------------ MODULE AtomicMC ------------------------------
(* The wrappers under every schedule: each thread performs a short program   *)
(* on one shared variable, floating fetch-add being a compare-and-swap loop  *)
(* that starts from a separate load; the recorded history must be            *)
(* linearizable.  Mode "bit": sets and gets of one bit of a word whose other *)
(* bits change meanwhile; the interval condition must agree with             *)
(* linearizability, also for histories with arbitrary results (Guess).       *)
EXTENDS Atomic, TLC
CONSTANTS Threads, Len1, Mode, Guess
VARIABLES prog, pc, at, val, e, H, clock
vars == <<prog, pc, at, val, e, H, clock>>
Ops == IF Mode = "var" THEN {<<"add", 1>>, <<"add", 2>>, <<"fadd", 1>>, <<"fadd", 3>>, <<"or", 2>>, <<"cas", 1>>, <<"load", 0>>, <<"store", 5>>}
       ELSE {<<"set", 0>>, <<"get", 0>>, <<"other", 0>>}
Th == 1..Threads
Init == /\ prog \in [Th -> [1..Len1 -> Ops]]
        /\ pc = [t \in Th |-> 1] /\ at = [t \in Th |-> "idle"] /\ val = 0 /\ e = [t \in Th |-> 0] /\ H = <<>> /\ clock = 0
(* H[h] is the record of an operation; e[t] its position while it runs       *)
Cur(t) == prog[t][pc[t]]
Begin(t) == /\ pc[t] <= Len1 /\ at[t] = "idle" /\ clock' = clock + 1
            /\ H' = Append(H, [th |-> t, op |-> IF Cur(t)[1] = "fadd" THEN "add" ELSE Cur(t)[1], a |-> Cur(t)[2], x |-> 0, y |-> 0, r |-> 0, b |-> clock, e |-> 1000])
            /\ e' = [e EXCEPT ![t] = Len(H) + 1] /\ at' = [at EXCEPT ![t] = "run"] /\ UNCHANGED <<prog, pc, val>>
Done(t, v, r, y) == val' = v /\ H' = [H EXCEPT ![e[t]].r = r, ![e[t]].y = y] /\ at' = [at EXCEPT ![t] = "end"] /\ UNCHANGED <<prog, pc, e, clock>>
Bit(w) == w % 2
Act(t) == /\ at[t] = "run"
          /\ LET o == Cur(t) IN
             CASE o[1] = "add" -> Done(t, val + o[2], val, 0)
               [] o[1] = "or" -> Done(t, BitOr(val, o[2]), val, 0)
               [] o[1] = "load" -> Done(t, val, val, 0)
               [] o[1] = "store" -> Done(t, o[2], 0, 0)
               [] o[1] = "cas" -> Done(t, IF val = 0 THEN o[2] ELSE val, IF val = 0 THEN 1 ELSE 0, IF val = 0 THEN 0 ELSE val)
               [] o[1] = "fadd" -> at' = [at EXCEPT ![t] = "loop"] /\ H' = [H EXCEPT ![e[t]].r = val] /\ UNCHANGED <<prog, pc, val, e, clock>>
               [] o[1] = "set" -> \E r \in (IF Guess THEN {0, 1} ELSE {Bit(val)}) : Done(t, BitOr(val, 1), r, 0)
               [] o[1] = "get" -> \E r \in (IF Guess THEN {0, 1} ELSE {Bit(val)}) : Done(t, val, r, 0)
               [] o[1] = "other" -> Done(t, BitOr(val, 2), 0, 0)
(* compare-and-swap from the value last seen *)
Loop(t) == /\ at[t] = "loop"
           /\ IF val = H[e[t]].r THEN Done(t, val + Cur(t)[2], val, 0)
              ELSE H' = [H EXCEPT ![e[t]].r = val] /\ UNCHANGED <<prog, pc, at, val, e, clock>>
End(t) == /\ at[t] = "end" /\ clock' = clock + 1 /\ H' = [H EXCEPT ![e[t]].e = clock] /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ at' = [at EXCEPT ![t] = "idle"]
          /\ UNCHANGED <<prog, val, e>>
Next == \E t \in Th : Begin(t) \/ Act(t) \/ Loop(t) \/ End(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == \A t \in Th : pc[t] > Len1
LinVar == Mode = "var" /\ Finished => Linearizable(H, 0, val)
Adds == Mode = "var" /\ Finished /\ (\A j \in 1..Len(H) : H[j].op = "add") => ChainOk(H, 0, val)
(* histories of the bit alone, as compare-and-swap free operations           *)
OfBit == SelectSeq(H, LAMBDA o : o.op \in {"set", "get"})
AsVar == [j \in 1..Len(OfBit) |-> IF OfBit[j].op = "set" THEN [OfBit[j] EXCEPT !.op = "or", !.a = 1] ELSE [OfBit[j] EXCEPT !.op = "load"]]
Fin == IF \E j \in 1..Len(OfBit) : OfBit[j].op = "set" THEN 1 ELSE 0
Agree == Mode = "bit" /\ Finished => BitOk(OfBit, Fin) = Linearizable(AsVar, 0, Fin)
LinBit == Mode = "bit" /\ ~Guess /\ Finished => BitOk(OfBit, Bit(val))
Ends == <>Finished
=============================================================================
