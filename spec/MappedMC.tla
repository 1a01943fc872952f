------------------------------ MODULE MappedMC ------------------------------
(* The memory-mapped reader: the entries are lines of different lengths, and  *)
(* a piece of them starts at the line found from a proportional guess at its  *)
(* byte.  Cutting the file at any edge numbers reads every line exactly once. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS MaxLines, Lens
VARIABLES lens, cut      \* length of every line with its newline; a cutting 0 <= ... <= Len(lens)
Before(k) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(lens, 1, k))
N == Len(lens)
(* the last line may lack a newline, or newlines may follow it: the end is that of its text *)
End == IF N = 0 THEN 0 ELSE Before(N) - 1
Starts == {Before(k) : k \in 0..(N - 1)}
Newline(b) == b = -1 \/ \E k \in 1..(N - 1) : b = Before(k) - 1
RECURSIVE Back(_)
Back(b) == IF b < 0 \/ Newline(b) THEN b + 1 ELSE Back(b - 1)
At(k) == IF k = 0 THEN 0 ELSE IF k = N THEN End ELSE Back((k * End) \div N)
(* the lines read from byte a up to byte b *)
RECURSIVE Lines(_, _)
Next1(a) == IF \E s \in Starts : s > a THEN CHOOSE s \in Starts : s > a /\ \A q \in Starts : q > a => s <= q ELSE End
Lines(a, b) == IF a = b THEN <<>> ELSE IF a > b THEN <<-1>> ELSE <<a>> \o Lines(Next1(a), b)
Init == lens = <<>> /\ cut = <<>>
Grow == N < MaxLines /\ cut = <<>> /\ \E l \in Lens : lens' = Append(lens, l) /\ cut' = <<>>
Cut == /\ N > 0 /\ Len(cut) < 3 /\ \E k \in 0..N : (IF cut = <<>> THEN TRUE ELSE cut[Len(cut)] <= k) /\ cut' = Append(cut, k)
       /\ lens' = lens
Next == Grow \/ Cut
Spec == Init /\ [][Next]_<<lens, cut>>
Bounds == <<0>> \o cut \o <<N>>
Pieces == [j \in 1..(Len(Bounds) - 1) |-> Lines(At(Bounds[j]), At(Bounds[j + 1]))]
Monotone == \A k \in 1..N : At(k - 1) <= At(k)
AtLine == \A k \in 0..(N - 1) : N > 0 => At(k) \in Starts
Covered == N > 0 => FlattenSeq(Pieces) = [k \in 1..N |-> Before(k - 1)]
=============================================================================
