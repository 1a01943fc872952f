-------------------------------- MODULE BfsMC --------------------------------
(* Parallel direction-optimizing breadth-first search at the level of its    *)
(* shared-memory steps, for every small graph and root.  A top-down step     *)
(* looks at one edge: it reads the parent of the target and, if there is     *)
(* none, claims it (Cas: compare-and-swap; otherwise a plain store, as in    *)
(* the simple variant).  A bottom-up step gives one vertex without parent a  *)
(* neighbor in the frontier bitmap.  Bitmaps keep stale bits, as the code's  *)
(* do, and the choice of direction at each level is arbitrary, which covers  *)
(* every alpha and beta.                                                     *)
EXTENDS Paths, TLC
CONSTANTS N, Loops, Cas, Stale
V == 0..(N - 1)
Null == Inf
VARIABLES A, root, par, mode,
          work, claim, next,     \* top-down: edges to look at, edges whose target was seen without parent, queue being filled
          front, curr, todo,     \* bottom-up: bitmaps, vertices to look at
          awake, old             \* bottom-up: vertices woken in this level and in the last
vars == <<A, root, par, mode, work, claim, next, front, curr, todo, awake, old>>
Edges(S) == {<<u, v>> \in S \X V : v \in A[u]}
Init == /\ A \in [V -> SUBSET V] /\ (Loops \/ \A v \in V : v \notin A[v]) /\ root \in V
        /\ par = [v \in V |-> IF v = root THEN root ELSE Null]
        /\ mode = "choose" /\ next = {root} /\ work = {} /\ claim = {}
        /\ front \in (IF Stale THEN {{}, V} ELSE {{}}) /\ curr = {} /\ todo = {} /\ awake = 0 /\ old = 0
(* between levels *)
Choose == /\ mode = "choose"
          /\ \/ /\ next = {} /\ mode' = "done" /\ UNCHANGED <<work, next, front, curr, todo, awake, old>>
             \/ /\ next # {} /\ mode' = "down" /\ work' = Edges(next) /\ next' = {}
                /\ UNCHANGED <<front, curr, todo, awake, old>>
             \/ /\ next # {} /\ mode' = "up"        \* the frontier queue is added to the bitmap, which is then swapped and the other cleared
                /\ front' = curr \cup next /\ curr' = {} /\ todo' = V /\ old' = Cardinality(next) /\ awake' = 0 /\ next' = {}
                /\ UNCHANGED work
          /\ UNCHANGED <<A, root, par, claim>>
Look == \E e \in work :
  /\ mode = "down" /\ work' = work \ {e}
  /\ claim' = IF par[e[2]] = Null THEN claim \cup {e} ELSE claim
  /\ UNCHANGED <<A, root, par, mode, next, front, curr, todo, awake, old>>
Claim == \E e \in claim :
  /\ mode = "down" /\ claim' = claim \ {e}
  /\ IF Cas /\ par[e[2]] # Null THEN UNCHANGED <<par, next>>
     ELSE par' = [par EXCEPT ![e[2]] = e[1]] /\ next' = next \cup {e[2]}
  /\ UNCHANGED <<A, root, mode, work, front, curr, todo, awake, old>>
DownEnd == /\ mode = "down" /\ work = {} /\ claim = {} /\ mode' = "choose"
           /\ UNCHANGED <<A, root, par, work, claim, next, front, curr, todo, awake, old>>
Wake == \E u \in todo :
  /\ mode = "up" /\ todo' = todo \ {u}
  /\ LET c == {v \in front : u \in A[v]} IN
     IF par[u] = Null /\ c # {} THEN \E v \in c : par' = [par EXCEPT ![u] = v] /\ curr' = curr \cup {u} /\ awake' = awake + 1
     ELSE UNCHANGED <<par, curr, awake>>
  /\ UNCHANGED <<A, root, mode, work, claim, next, front, old>>
UpEnd == /\ mode = "up" /\ todo = {}
         /\ \/ /\ awake > 0                          \* another bottom-up level
               /\ front' = curr /\ curr' = {} /\ todo' = V /\ old' = awake /\ awake' = 0 /\ UNCHANGED <<mode, next>>
            \/ /\ awake < old /\ awake = 0 /\ mode' = "done" /\ UNCHANGED <<next, front, curr, todo, awake, old>>
            \/ /\ awake < old /\ awake > 0 /\ next' = curr /\ mode' = "choose" /\ UNCHANGED <<front, curr, todo, awake, old>>
         /\ UNCHANGED <<A, root, par, work, claim>>
Next == Choose \/ Look \/ Claim \/ DownEnd \/ Wake \/ UpEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
L == Levels(A, root)
Sound == \A v \in V \ {root} : par[v] # Null => /\ L[v] # Inf /\ v \in A[par[v]] /\ L[par[v]] = L[v] - 1
Complete == mode = "done" => IsTree(A, L, root, par)
(* a level of work deals with vertices of one level only *)
Synchronous == \A e \in work \cup claim : \A f \in work \cup claim : L[e[1]] = L[f[1]]
Terminates == <>(mode = "done")
=============================================================================
