------------------------------ MODULE BitVecMC ------------------------------
(* Iteration over the set bits of a vector of words of W bits, whole or      *)
(* split at word boundaries as a parallel loop would; and histories of       *)
(* operations to be replayed (Gen).                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, MaxWords, Cutoff, N, Depth, Gen
VARIABLES data, n, pieces, it, out, hist
vars == <<data, n, pieces, it, out, hist>>
Positions(w) == 0..(w - 1)
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the iterator that search_next finds from word w: first bit of the first   *)
(* word that has one, else the saturated end                                 *)
RECURSIVE Search(_)
Search(w) == IF w >= n THEN <<n, 0>> ELSE IF data[w] # {} THEN <<w, MinS(data[w])>> ELSE Search(w + 1)
Step(p) == IF p[1] < n /\ p[2] + 1 < W /\ \E b \in data[p[1]] : b >= p[2] + 1 THEN <<p[1], MinS({b \in data[p[1]] : b >= p[2] + 1})>> ELSE Search(p[1] + 1)
Init == /\ hist = <<>> /\ out = [p \in {} |-> <<>>]
        /\ IF Gen THEN data = <<>> /\ n = 0 /\ pieces = {} /\ it = <<>>
           ELSE n \in 0..MaxWords /\ data \in [Positions(n) -> SUBSET (0..(W - 1))] /\ pieces = {<<0, n>>} /\ it = <<>>
Split == it = <<>> /\ out = [p \in {} |-> <<>>] /\ \E p \in pieces : p[2] - p[1] > Cutoff /\ (LET m == p[1] + (p[2] - p[1]) \div 2 IN pieces' = (pieces \ {p}) \cup {<<p[1], m>>, <<m, p[2]>>}) /\ UNCHANGED <<data, n, it, out, hist>>
Start == ~Gen /\ it = <<>> /\ \E p \in pieces \ DOMAIN out : it' = <<p, Search(p[1])>> /\ out' = [q \in DOMAIN out \cup {p} |-> IF q = p THEN <<>> ELSE out[q]] /\ UNCHANGED <<data, n, pieces, hist>>
Iterate == it # <<>> /\ (IF it[2] = Search(it[1][2]) THEN it' = <<>> /\ out' = out
                         ELSE out' = [out EXCEPT ![it[1]] = Append(@, it[2][1] * W + it[2][2])] /\ it' = <<it[1], Step(it[2])>>) /\ UNCHANGED <<data, n, pieces, hist>>
(* 1 set, 2 get, 3 clear, 4 move, 5 assign, 6 iterate, 7 iterate in pieces   *)
Op == Gen /\ Len(hist) < Depth /\ \E k \in 1..7, b \in 0..(N - 1) : (k > 2 => b = 0) /\ hist' = Append(hist, <<k, b>>) /\ UNCHANGED <<data, n, pieces, it, out>>
Next == Split \/ Start \/ Iterate \/ Op
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Iterate)
Inside(b, e) == {w * W + x : <<w, x>> \in {y \in (b..(e - 1)) \X (0..(W - 1)) : y[2] \in data[y[1]]}}
Sorted(s) == \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
Set(s) == {s[j] : j \in 1..Len(s)}
Exact == \A p \in DOMAIN out : Sorted(out[p]) /\ Set(out[p]) \subseteq Inside(p[1], p[2]) /\ ((it = <<>> \/ it[1] # p) => Set(out[p]) = Inside(p[1], p[2]))
Covers == UNION {p[1]..(p[2] - 1) : p \in pieces} = (IF Gen THEN {} ELSE 0..(n - 1)) /\ \A p, q \in pieces : p # q => (p[1]..(p[2] - 1)) \cap (q[1]..(q[2] - 1)) = {}
Ends == ~Gen => <>(it = <<>> /\ DOMAIN out = pieces)
Emit == (Gen /\ Len(hist) = Depth) => PrintT(<<"BEHAVIOUR", <<N>>, hist>>)
=============================================================================
