------------------------------- MODULE Ranges -------------------------------
(* What the ranges over a graph enumerate.  rows is the sequence of neighbor *)
(* lists; off is the vertex at which a range starts.                         *)
EXTENDS Graph
Vertices(rows, off) == [j \in 1..(Len(rows) - off) |-> <<off + j - 1>>]
DegreesOf(rows) == [j \in 1..Len(rows) |-> <<j - 1, Len(rows[j])>>]
Neighborhoods(rows, off) == [j \in 1..(Len(rows) - off) |-> <<off + j - 1, rows[off + j]>>]
(* cols: the selected attributes, 0 for the first one *)
Sel(x, cols) == <<x[1]>> \o [k \in 1..Len(cols) |-> x[cols[k] + 2]]
EdgesFrom(rows, off, cols) ==
  FlattenSeq([j \in 1..(Len(rows) - off) |-> [k \in 1..Len(rows[off + j]) |-> <<off + j - 1>> \o Sel(rows[off + j][k], cols)]])
(* The edge iterator as a state machine: an outer position and a position in *)
(* the current neighbor list; it skips vertices without neighbors.  Two      *)
(* iterators are equal when their outer positions are.                       *)
RECURSIVE Skip(_, _, _)
Skip(len, o, k) == IF o < Len(len) /\ k >= len[o + 1] THEN (IF o + 1 < Len(len) THEN Skip(len, o + 1, 0) ELSE <<o + 1, 0>>) ELSE <<o, k>>
ItBegin(len, off) == Skip(len, off, 0)
ItNext(len, p) == Skip(len, p[1], p[2] + 1)
ItEnd(len) == Len(len)
=============================================================================
