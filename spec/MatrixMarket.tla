---------------------------- MODULE MatrixMarket ----------------------------
(* Coordinate Matrix Market files and the lists read from and written to     *)
(* them.  A file is a record                                                 *)
(*   rows, cols   the stated dimensions                                      *)
(*   sym          "general" or "symmetric"                                   *)
(*   val          whether entries carry a value (integer or real file)       *)
(*   ents         sequence of <<row, column>> or <<row, column, value>>,     *)
(*                1-based as in the file                                     *)
(* A list is a record [n, dir, ents] with 0-based <<source, target, value>>  *)
(* or <<source, target>> entries; values are opaque tokens.                  *)
EXTENDS Graph
(* one entry as the list sees it; one: the value given to pattern entries    *)
Zero(x, val, attr, one) ==
  IF attr = 0 THEN <<x[1] - 1, x[2] - 1>>
  ELSE <<x[1] - 1, x[2] - 1, IF val THEN x[3] ELSE one>>
Mirrored(E) == SelectSeq(E, LAMBDA x : x[1] # x[2])
ReadEntries(f, dir, attr, one) ==
  LET z == [j \in 1..Len(f.ents) |-> Zero(f.ents[j], f.val, attr, one)] IN
  IF dir /\ f.sym = "symmetric" THEN z \o Flipped(Mirrored(z)) ELSE z
ReadList(f, dir, attr, one) == [n |-> MaxOf(f.rows, f.cols), dir |-> dir, ents |-> ReadEntries(f, dir, attr, one)]
(* w: 0 to write no value, otherwise the attribute to write                  *)
One(x, w) == IF w = 0 THEN <<x[1] + 1, x[2] + 1>> ELSE <<x[1] + 1, x[2] + 1, x[2 + w]>>
OneBased(E, w) == [j \in 1..Len(E) |-> One(E[j], w)]
WriteList(l, sym, w) ==
  [rows |-> l.n, cols |-> l.n, sym |-> sym, val |-> w # 0,
   ents |-> OneBased(IF sym = "general" /\ ~l.dir THEN l.ents \o Flipped(l.ents) ELSE l.ents, w)]
(* an adjacency built from list l with key idx, written row by row           *)
WriteAdj(l, idx, sym, w) ==
  [rows |-> l.n, cols |-> l.n, sym |-> sym, val |-> w # 0, ents |-> OneBased(Entries(l.ents, idx, l.dir), w)]
(* the memory-mapped reader: the entries in the order of the file, 0-based,  *)
(* with the first n of their values, read in pieces that follow one another  *)
MappedEntries(f, n) == [j \in 1..Len(f.ents) |-> <<f.ents[j][1] - 1, f.ents[j][2] - 1>> \o SubSeq(f.ents[j], 3, 2 + n)]
SameFile(f, g) == f.rows = g.rows /\ f.cols = g.cols /\ f.sym = g.sym /\ f.val = g.val /\ SameBag(f.ents, g.ents)
SameList(l, m) == l.n = m.n /\ l.dir = m.dir /\ SameBag(l.ents, m.ents)
=============================================================================
