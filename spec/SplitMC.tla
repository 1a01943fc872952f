------------------------------ MODULE SplitMC ------------------------------
(* The splitting arithmetic of the library's ranges, for every range length, *)
(* every cutoff and every order in which a scheduler may split pieces.       *)
(* Kind "half": pieces [lo, hi), the new piece takes the left half.          *)
(* Kind "right": the new piece takes the right half.                         *)
(* Kind "cyclic": pieces (cycle, stride), the new piece starts one stride on *)
(* and both double their stride.                                             *)
EXTENDS Split, TLC
CONSTANTS MaxLen, MaxCut, Depth, Kinds, Gen
VARIABLES kind, n, cut, pieces, picks
vars == <<kind, n, cut, pieces, picks>>
RECURSIVE Pow2Above(_, _)
Pow2Above(x, p) == IF p >= x THEN p ELSE Pow2Above(x, 2 * p)
Init == /\ kind \in Kinds /\ n \in 0..MaxLen /\ cut \in 1..MaxCut
        /\ pieces = << IF kind = "cyclic" THEN <<0, 1>> ELSE <<0, n>> >> /\ picks = <<>>
Size(p) == IF kind = "cyclic" THEN n \div p[2] + (IF p[1] < n % p[2] THEN 1 ELSE 0) ELSE p[2] - p[1]
Divisible(p) == IF kind = "cyclic" THEN p[2] <= Pow2Above(cut, 1) ELSE Size(p) > cut
Old(p) == CASE kind = "half" -> <<p[1] + Size(p) \div 2, p[2]>>
            [] kind = "right" -> <<p[1], p[1] + Size(p) \div 2>>
            [] kind = "cyclic" -> <<p[1], 2 * p[2]>>
New(p) == CASE kind = "half" -> <<p[1], p[1] + Size(p) \div 2>>
            [] kind = "right" -> <<p[1] + Size(p) \div 2, p[2]>>
            [] kind = "cyclic" -> <<p[1] + p[2], 2 * p[2]>>
Next == \E k \in 1..Len(pieces) :
  /\ Divisible(pieces[k]) /\ Len(picks) < Depth
  /\ pieces' = Append([pieces EXCEPT ![k] = Old(pieces[k])], New(pieces[k]))
  /\ picks' = Append(picks, k) /\ UNCHANGED <<kind, n, cut>>
Spec == Init /\ [][Next]_vars
(* positions a piece's iterators step through: C++ remainders truncate *)
Rem(a, b) == IF a >= 0 THEN a % b ELSE -((-a) % b)
Mod1(a, b) == ((a % b) + b) % b
EndOf(p) == IF kind = "cyclic" THEN n + Rem(p[2] - Rem(n - p[1], p[2]), p[2]) ELSE p[2]
Step(p) == IF kind = "cyclic" THEN p[2] ELSE 1
Reached(p) == EndOf(p) >= p[1] /\ (EndOf(p) - p[1]) % Step(p) = 0      \* i != end stops the loop
Positions(p) == {p[1] + j * Step(p) : j \in 0..((EndOf(p) - p[1]) \div Step(p) - 1)}
Stops == \A k \in 1..Len(pieces) : Reached(pieces[k])
Sizes == \A k \in 1..Len(pieces) : Cardinality(Positions(pieces[k])) = Size(pieces[k])
Exactly == /\ UNION {Positions(pieces[k]) : k \in 1..Len(pieces)} = 0..(n - 1)
           /\ SumSeq([k \in 1..Len(pieces) |-> Size(pieces[k])]) = n
Progress == kind # "cyclic" => \A k \in 1..Len(pieces) : n > 0 => Size(pieces[k]) >= 1
Bounded == Len(pieces) <= IF kind = "cyclic" THEN 2 * Pow2Above(cut, 1) ELSE IF n = 0 THEN 1 ELSE n
View == <<kind, n, cut, Rng(pieces), Len(pieces)>>
Final == Len(picks) = Depth \/ \A k \in 1..Len(pieces) : ~Divisible(pieces[k])
Emit == (Gen /\ Final) => PrintT(<<"BEHAVIOUR", <<n, cut>> \o picks, <<>> >>)
=============================================================================
