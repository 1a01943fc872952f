--------------------------- MODULE MatrixMarketMC ---------------------------
(* Every small file, read in every way, written in every way: the round-trip *)
(* laws that the specification of reading and writing must satisfy.          *)
EXTENDS MatrixMarket, TLC
CONSTANTS MaxR, MaxC, MaxM, Vals, Gen
VARIABLES f, k      \* the file; k: further parameters of the replayed case
Init == /\ \E r \in 0..MaxR, c \in 0..MaxC, s \in {"general", "symmetric"}, v \in BOOLEAN :
             (s = "symmetric" => r = c) /\ f = [rows |-> r, cols |-> c, sym |-> s, val |-> v, ents |-> <<>>]
        /\ k = <<>>
Next == /\ Len(f.ents) < MaxM
        /\ \E i \in 1..f.rows, j \in 1..f.cols, w \in Vals :
             f' = [f EXCEPT !.ents = Append(f.ents, IF f.val THEN <<i, j, w>> ELSE <<i, j>>)]
        /\ k' = k
Spec == Init /\ [][Next]_<<f, k>>
ONE == 100
D(attr) == ReadList(f, TRUE, attr, ONE)
U(attr) == ReadList(f, FALSE, attr, ONE)
A == IF f.val THEN 1 ELSE 0
(* a directed list survives; an undirected one survives as a symmetric file *)
RoundTripD == SameList(ReadList(WriteList(D(A), "general", A), TRUE, A, ONE), D(A))
RoundTripU == SameList(ReadList(WriteList(U(A), "symmetric", A), FALSE, A, ONE), U(A))
RoundTripA == \A idx \in {0, 1} :
   LET g == ReadList(WriteAdj(D(A), idx, "general", A), TRUE, A, ONE) IN
   SameBag(g.ents, Keyed(D(A).ents, idx))
(* values are independent of the structure *)
Erase == SameBag([j \in 1..Len(D(1).ents) |-> SubSeq(D(1).ents[j], 1, 2)], D(0).ents)
(* a symmetric file stands for a symmetric relation *)
Sym == f.sym = "symmetric" => Rng(Flipped(D(1).ents)) = Rng(D(1).ents)
(* a general file written from an undirected list is what a directed reader of the symmetric file sees, but for loops *)
GenSym == LET l == U(A) IN
   SameBag(Mirrored(ReadEntries(WriteList(l, "general", A), TRUE, A, ONE)), Mirrored(ReadEntries(WriteList(l, "symmetric", A), TRUE, A, ONE)))
Cover == MaxOf(NeedV(D(0).ents), 0) <= D(0).n
B(x) == IF x THEN 1 ELSE 0
Emit == Gen => PrintT(<<"BEHAVIOUR", <<MaxOf(f.rows, f.cols), f.rows, f.cols, B(f.sym = "symmetric"), B(f.val)>>,
                        [j \in 1..Len(f.ents) |-> <<f.ents[j][1] - 1, f.ents[j][2] - 1, IF f.val THEN f.ents[j][3] ELSE 1>>]>>)
=============================================================================
