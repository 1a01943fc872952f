------------------------------ MODULE SparseMC ------------------------------
(* The two product algorithms step by step on every small pair of matrices:  *)
(* "map" runs through the entries of A row by row and adds partial products  *)
(* into a table; "dot" merges every row of A with every row of B transposed. *)
EXTENDS Sparse
CONSTANTS N, Vals
Idx == 1..N
VARIABLES A, B, how, i, j, k, l, acc, out
vars == <<A, B, how, i, j, k, l, acc, out>>
RowSet == {SelectSeq([c \in Idx |-> <<c - 1, f[c]>>], LAMBDA e : e[2] # 99) : f \in [Idx -> Vals \cup {99}]}
Mats == [Idx -> RowSet]
(* how = "map": k, l are positions in A[i] and B[column]; how = "dot": B     *)
(* holds the transpose, k, l are positions in A[i] and B[j]                  *)
Init == A \in Mats /\ B \in Mats /\ how \in {"map", "dot"} /\ i = 1 /\ j = 1 /\ k = 1 /\ l = 1 /\ acc = <<>> /\ out = {}
MapStep == /\ how = "map" /\ i <= N
           /\ IF k > Len(A[i]) THEN /\ out' = out \cup {<<i - 1, c, acc[c]>> : c \in DOMAIN acc} /\ acc' = <<>> /\ i' = i + 1 /\ k' = 1 /\ l' = 1
              ELSE LET row == B[A[i][k][1] + 1] IN
                   IF l > Len(row) THEN k' = k + 1 /\ l' = 1 /\ UNCHANGED <<i, acc, out>>
                   ELSE /\ acc' = (LET p == A[i][k][2] * row[l][2] IN IF row[l][1] \in DOMAIN acc THEN [acc EXCEPT ![row[l][1]] = @ + p] ELSE acc @@ (row[l][1] :> p))
                        /\ l' = l + 1 /\ UNCHANGED <<i, k, out>>
           /\ UNCHANGED <<A, B, how, j>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
DotStep == /\ how = "dot" /\ i <= N
           /\ IF k > Len(A[i]) \/ l > Len(B[j]) THEN
                /\ out' = (IF acc = <<>> THEN out ELSE out \cup {<<i - 1, j - 1, Sum(acc)>>}) /\ acc' = <<>> /\ k' = 1 /\ l' = 1
                /\ IF j = N THEN i' = i + 1 /\ j' = 1 ELSE i' = i /\ j' = j + 1
              ELSE /\ UNCHANGED <<i, j, out>>
                   /\ CASE A[i][k][1] < B[j][l][1] -> k' = k + 1 /\ UNCHANGED <<l, acc>>
                        [] A[i][k][1] > B[j][l][1] -> l' = l + 1 /\ UNCHANGED <<k, acc>>
                        [] OTHER -> k' = k + 1 /\ l' = l + 1 /\ acc' = Append(acc, A[i][k][2] * B[j][l][2])
           /\ UNCHANGED <<A, B, how>>
Next == MapStep \/ DotStep
Spec == Init /\ [][Next]_vars
(* matrices as partial functions *)
Cell(M, r, c) == {M[r][m][2] : m \in {n \in 1..Len(M[r]) : M[r][n][1] = c - 1}}
Terms(r, c) == {t \in Idx : Cell(A, r, t) # {} /\ (IF how = "map" THEN Cell(B, t, c) ELSE Cell(B, c, t)) # {}}
One(X) == CHOOSE x \in X : TRUE
RECURSIVE SumT(_, _, _)
SumT(X, r, c) == IF X = {} THEN 0 ELSE LET t == SetMin(X) IN One(Cell(A, r, t)) * One(IF how = "map" THEN Cell(B, t, c) ELSE Cell(B, c, t)) + SumT(X \ {t}, r, c)
Product(top) == {<<r - 1, c - 1, SumT(Terms(r, c), r, c)>> : r \in 1..top, c \in Idx} \cap {<<r - 1, c - 1, SumT(Terms(r, c), r, c)>> : <<r, c>> \in {x \in (1..top) \X Idx : Terms(x[1], x[2]) # {}}}
Result == i > N => out = Product(N)
RowsDone == how = "map" => out = Product(i - 1)
(* the operators that judge recorded products *)
Judge == i > N => IF how = "map" THEN out = UNION {{<<r - 1, c, RowTimes("sum", A[r], B)[c]>> : c \in DOMAIN RowTimes("sum", A[r], B)} : r \in Idx}
                  ELSE out = {<<r - 1, c - 1, DotOf(A[r], B[c]).value>> : <<r, c>> \in {x \in Idx \X Idx : DotOf(A[x[1]], B[x[2]]).meets}}
=============================================================================
