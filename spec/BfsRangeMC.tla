----------------------------- MODULE BfsRangeMC -----------------------------
(* The work-list algorithms behind the breadth-first vertex and edge ranges, *)
(* for every small graph, seed and order of the neighbor lists.              *)
EXTENDS Traverse, TLC
CONSTANTS N, Loops
V == 0..(N - 1)
VARIABLES A, seed, queue, visited, out,    \* vertex range: out = heads in order
          todo,                            \* edge range: neighbors of the head not looked at yet
          tree                             \* edge range: edges yielded
vars == <<A, seed, queue, visited, out, todo, tree>>
Init == /\ A \in [V -> SUBSET V] /\ (Loops \/ \A v \in V : v \notin A[v])
        /\ seed \in V /\ queue = <<seed>> /\ visited = {seed} /\ out = <<>>
        /\ todo = A[seed] /\ tree = <<>>
(* the edge iterator looks at one neighbor of the head of the queue *)
Look == \E v \in todo :
  /\ queue # <<>> /\ todo' = todo \ {v}
  /\ IF v \in visited THEN UNCHANGED <<queue, visited, tree>>
     ELSE /\ visited' = visited \cup {v} /\ queue' = Append(queue, v)
          /\ tree' = Append(tree, <<Head(queue), v>>)
  /\ UNCHANGED <<A, seed, out>>
Pop == /\ queue # <<>> /\ todo = {}
       /\ out' = Append(out, Head(queue)) /\ queue' = Tail(queue)
       /\ todo' = IF queue' = <<>> THEN {} ELSE A[Head(queue')]
       /\ UNCHANGED <<A, seed, visited, tree>>
Next == Look \/ Pop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
L == Levels(A, seed)
Rows == [u \in 1..N |-> SetToSeq({<<v>> : v \in A[u - 1]})]
Sound == /\ Rng(out) \subseteq Reached(L) /\ Distinct(out)
         /\ TreeEdgesWhy(L, Rows, tree, FALSE) = ""
         /\ Asc([j \in 1..Len(queue) |-> L[queue[j]]])
Complete == queue = <<>> => /\ VertexWhy(L, seed, out) = ""
                            /\ TreeEdgesWhy(L, Rows, tree, TRUE) = ""
Terminates == <>(queue = <<>>)
=============================================================================
