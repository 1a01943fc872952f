----------------------------- MODULE CsrBuildMC -----------------------------
(* The construction of a compressed adjacency, step by step: entries are     *)
(* counted per vertex in any order (atomic increments by parallel workers),  *)
(* the counts are scanned into an index array, and the entries are brought   *)
(* into the order of their vertex by any (unstable) sort.  Every end state   *)
(* projects to the abstract content Csr!CsrOfEdges.                          *)
EXTENDS Csr, TLC
CONSTANTS MaxN, MaxM, Weights
VARIABLES n, E, idx, dir, pc, todo, deg, ind, col
vars == <<n, E, idx, dir, pc, todo, deg, ind, col>>
Ents == Entries(E, idx, dir)
Init == /\ n \in 0..MaxN /\ idx \in {0, 1} /\ dir \in BOOLEAN
        /\ E \in UNION {[1..m -> (0..(n - 1)) \X (0..(n - 1)) \X Weights] : m \in 0..MaxM}
        /\ pc = "count" /\ todo = 1..Len(Entries(E, idx, dir)) /\ deg = [u \in 1..n |-> 0] /\ ind = <<>> /\ col = <<>>
Count == /\ pc = "count" /\ todo # {}
         /\ \E j \in todo : /\ deg' = [deg EXCEPT ![Ents[j][1] + 1] = @ + 1]
                            /\ todo' = todo \ {j}
         /\ UNCHANGED <<n, E, idx, dir, pc, ind, col>>
Scan == /\ pc = "count" /\ todo = {}
        /\ ind' = [j \in 1..(n + 1) |-> SumTo(deg, j - 1)]
        /\ pc' = "sort" /\ UNCHANGED <<n, E, idx, dir, todo, deg, col>>
Perms(m) == {p \in [1..m -> 1..m] : \A x, y \in 1..m : x # y => p[x] # p[y]}
Sort == /\ pc = "sort"
        /\ \E p \in Perms(Len(Ents)) :
             /\ \A j \in 1..(Len(Ents) - 1) : Ents[p[j]][1] <= Ents[p[j + 1]][1]
             /\ col' = [j \in 1..Len(Ents) |-> <<Ents[p[j]][2]>> \o Tail2(Ents[p[j]])]
        /\ pc' = "done" /\ UNCHANGED <<n, E, idx, dir, todo, deg, ind>>
Next == Count \/ Scan \/ Sort
Spec == Init /\ [][Next]_vars
Rows == [u \in 1..n |-> SubSeq(col, ind[u] + 1, ind[u + 1])]
Exact == pc = "done" => SameBag(Flat(Rows), CsrOfEdges(E, idx, dir, n).ents) /\ Len(col) = Len(Ents)
IndexOk == pc # "count" => ind[1] = 0 /\ Asc(ind) /\ ind[n + 1] = Len(Ents)
=============================================================================
