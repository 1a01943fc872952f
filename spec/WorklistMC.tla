----------------------------- MODULE WorklistMC -----------------------------
(* Threads traverse one work list: each takes an item, works on it (pushing   *)
(* further items), takes the next one, until it gets none. GlobalEnd models  *)
(* an iterator that compares equal to the end when the list, rather than the *)
(* iterator, has no item.                                                    *)
EXTENDS Worklist, FiniteSets, TLC
CONSTANTS Threads, Items, Levels, GlobalEnd
VARIABLES list, next, at, item, count, order
vars == <<list, next, at, item, count, order>>
None == <<0, 0>>
T == 1..Threads
Init == \E n \in 1..Items : \E L \in [1..n -> 0..Levels] :
          /\ next = n + 1 /\ list = [k \in 1..n |-> <<k, L[k]>>]
          /\ at = [t \in T |-> "begin"] /\ item = [t \in T |-> None]
          /\ count = [k \in 1..Items |-> 0] /\ order = <<>>
Take(t) == IF list = <<>> THEN item' = [item EXCEPT ![t] = None] /\ UNCHANGED list
           ELSE item' = [item EXCEPT ![t] = ServedNext(list)] /\ list' = Served(list)
Begin(t) == /\ at[t] = "begin" /\ Take(t) /\ at' = [at EXCEPT ![t] = "test"] /\ UNCHANGED <<next, count, order>>
Test(t) == /\ at[t] = "test"
           /\ at' = [at EXCEPT ![t] = IF (IF GlobalEnd THEN list = <<>> ELSE item[t] = None) THEN "end" ELSE "work"]
           /\ UNCHANGED <<list, next, item, count, order>>
Work(t) == /\ at[t] = "work" /\ at' = [at EXCEPT ![t] = "push"]
           /\ count' = IF item[t] = None THEN count ELSE [count EXCEPT ![item[t][1]] = @ + 1]
           /\ order' = IF Threads = 1 THEN Append(order, item[t]) ELSE order
           /\ UNCHANGED <<list, next, item>>
Push(t) == /\ at[t] = "push" /\ next <= Items
           /\ \E l \in 0..Levels : list' = Pushed(list, <<next, l>>)
           /\ next' = next + 1 /\ UNCHANGED <<at, item, count, order>>
More(t) == /\ at[t] = "push" /\ Take(t) /\ at' = [at EXCEPT ![t] = "test"] /\ UNCHANGED <<next, count, order>>
Next == \E t \in T : Begin(t) \/ Test(t) \/ Work(t) \/ Push(t) \/ More(t)
Fair == \A t \in T : WF_vars(Begin(t)) /\ WF_vars(Test(t)) /\ WF_vars(Work(t)) /\ WF_vars(More(t))
Spec == Init /\ [][Next]_vars /\ Fair
Once == \A k \in 1..Items : count[k] <= 1
None_lost == (\A t \in T : at[t] = "end") => list = <<>> /\ \A k \in 1..(next - 1) : count[k] = 1
(* one thread serves the items of a level in the order they were pushed in *)
Ordered == \A j, k \in 1..Len(order) : j < k /\ order[j][2] = order[k][2] => order[j][1] < order[k][1]
Terminates == <>(\A t \in T : at[t] = "end")
=============================================================================
