------------------------------ MODULE Records ------------------------------
(* A sequence of records, with the operations of the record containers and   *)
(* the algorithms that are run on their iterators.  A record is a tuple of   *)
(* integers; the containers may store it as one record or as columns.        *)
EXTENDS Graph

RECURSIVE LexLe(_, _, _)
LexLe(a, b, j) == IF j > Len(a) THEN TRUE ELSE IF a[j] = b[j] THEN LexLe(a, b, j + 1) ELSE a[j] < b[j]
Le(a, b) == LexLe(a, b, 1)
Key(x) == x[1]
Sorted(S) == \A j \in 1..(Len(S) - 1) : Le(S[j], S[j + 1])
KeySorted(S) == Asc(Firsts(S))
Put(S, j, x) == [S EXCEPT ![j] = x]
Swap(S, j, k) == [S EXCEPT ![j] = S[k], ![k] = S[j]]
Zero(w) == [j \in 1..w |-> 0]
Resize(S, n, w) == [j \in 1..n |-> IF j <= Len(S) THEN S[j] ELSE Zero(w)]
Rotate(S, k) == SubSeq(S, k + 1, Len(S)) \o SubSeq(S, 1, k)
Stable(S, T) == \A x \in {Key(S[j]) : j \in 1..Len(S)} :
                   SelectSeq(S, LAMBDA y : Key(y) = x) = SelectSeq(T, LAMBDA y : Key(y) = x)
Uniq(S, Eq(_, _)) == LET keep == {j \in 1..Len(S) : j = 1 \/ ~Eq(S[j - 1], S[j])}
                         Nth(k) == CHOOSE j \in keep : Cardinality({i \in keep : i <= j}) = k
                     IN [k \in 1..Cardinality(keep) |-> S[Nth(k)]]

(* The same containers held as columns: the representation that the column   *)
(* containers use.  Every operation acts on each column separately.          *)
Cols(S, w) == [c \in 1..w |-> [j \in 1..Len(S) |-> S[j][c]]]
Recs(C) == IF Len(C) = 0 THEN <<>> ELSE [j \in 1..Len(C[1]) |-> [c \in 1..Len(C) |-> C[c][j]]]

(* Operations with one outcome.  a, b: integers, x: record, w: width         *)
Ops == <<"push", "pushtuple", "pushat", "assign", "field", "swap", "cycle", "clear", "resize", "reverse", "rotate",
         "stablepart", "removeif", "unique", "uniquekey", "stablesort", "copy", "move", "stdcopy", "fill", "replace",
         "sort", "sortkey", "partition", "nth", "partialsort", "heapsort", "merge", "sortdesc", "parsort">>
NDet == 21
Fits(S, op, a, b) ==
  CASE op \in {"pushat", "assign", "field"} -> a < Len(S)
    [] op \in {"swap", "cycle"} -> a < Len(S) /\ b < Len(S)
    [] op \in {"rotate", "merge", "partialsort"} -> a <= Len(S)
    [] op = "nth" -> a < Len(S)
    [] OTHER -> TRUE
Det(S, op, a, b, x, w) ==
  CASE op \in {"push", "pushtuple"} -> Append(S, x)
    [] op \in {"pushat", "assign"} -> Put(S, a + 1, x)
    [] op = "field" -> Put(S, a + 1, [S[a + 1] EXCEPT ![(b % w) + 1] = x[(b % w) + 1]])
    [] op \in {"swap", "cycle"} -> Swap(S, a + 1, b + 1)
    [] op = "clear" -> <<>>
    [] op = "resize" -> Resize(S, a, w)
    [] op = "reverse" -> Reverse(S)
    [] op = "rotate" -> Rotate(S, a)
    [] op = "stablepart" -> SelectSeq(S, LAMBDA y : Key(y) < a) \o SelectSeq(S, LAMBDA y : Key(y) >= a)
    [] op = "removeif" -> SelectSeq(S, LAMBDA y : Key(y) # a)
    [] op = "unique" -> Uniq(S, LAMBDA p, q : p = q)
    [] op = "uniquekey" -> Uniq(S, LAMBDA p, q : Key(p) = Key(q))
    [] op = "stablesort" -> SortSeq(S, LAMBDA p, q : Key(p) < Key(q))   \* insertion sort is stable
    [] op = "fill" -> [j \in 1..Len(S) |-> x]
    [] op = "replace" -> [j \in 1..Len(S) |-> IF Key(S[j]) = a THEN x ELSE S[j]]
    [] OTHER -> S      \* copy, move, stdcopy
(* Operations that leave some freedom: T is a possible outcome.              *)
Free(S, op, a, T) ==
  /\ SameBag(S, T)
  /\ CASE op \in {"sort", "parsort", "heapsort"} -> Sorted(T)
       [] op = "sortdesc" -> Sorted(Reverse(T))
       [] op = "sortkey" -> KeySorted(T)
       [] op = "partition" -> \A j, k \in 1..Len(T) : (Key(T[j]) < a /\ Key(T[k]) >= a) => j < k
       [] op = "nth" -> \A j \in 1..Len(T) : (j < a + 1 => Le(T[j], T[a + 1])) /\ (j > a + 1 => Le(T[a + 1], T[j]))
       [] op = "partialsort" -> /\ Sorted(SubSeq(T, 1, a))
                                /\ a > 0 => \A j \in (a + 1)..Len(T) : Le(T[a], T[j])
       [] op = "merge" -> Sorted(T)       \* both halves sorted, then merged in place
       [] OTHER -> FALSE
Outcome(S, op, a, b, x, w, T) ==
  IF \E j \in 1..NDet : Ops[j] = op THEN T = Det(S, op, a, b, x, w) ELSE Free(S, op, a, T)
=============================================================================
