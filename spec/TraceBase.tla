----------------------------- MODULE TraceBase -----------------------------
(* Skeleton of all trace specifications: a behaviour walks through the       *)
(* events of one recorded case.  An event that the specification does not    *)
(* allow prints a REJECT line and ends that case.  A trace specification     *)
(* instantiates this module with                                             *)
(*   TStart(t)       - the specification state in which case t starts        *)
(*   TWhy(t, s, ev)  - "" when the event is allowed in s, otherwise which    *)
(*                     clause it breaks                                      *)
(*   TPost(t, s, ev) - the state after the event                             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Trace, TStart(_), TWhy(_, _, _), TPost(_, _, _)
VARIABLES c, i, st
TInit == c \in 1..Len(Trace) /\ i = 0 /\ st = <<>>
(* i = 0: not started; i = k + 1: k events accepted; i = -1: rejected. *)
TNext ==
  \/ /\ i = 0
     /\ st' = TStart(Trace[c]) /\ i' = 1 /\ c' = c
  \/ /\ i >= 1 /\ i <= Len(Trace[c].ev)
     /\ LET t == Trace[c]  ev == t.ev[i]  w == TWhy(t, st, ev) IN
        IF w = "" THEN i' = i + 1 /\ st' = TPost(t, st, ev) /\ c' = c
        ELSE PrintT(<<"REJECT", t.id, i, ev.k, w>>) /\ i' = -1 /\ UNCHANGED <<c, st>>
TSpec == TInit /\ [][TNext]_<<c, i, st>>
=============================================================================
