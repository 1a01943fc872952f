------------------------------ MODULE EdgeList ------------------------------
(* The edge list as a state machine: a sequence of records (source, target,  *)
(* attributes...) with a vertex cardinality per partition (one for           *)
(* unipartite, two for bipartite lists).  An operation is a record           *)
(* [k |-> name, u, v, a (sequence of attribute values), n].                  *)
EXTENDS Integers, Sequences

Max2(x, y) == IF x > y THEN x ELSE y

(* State: [kind, na (number of attributes), edges, card, open]. *)
ELInit(kind, na, decl) == [kind |-> kind, na |-> na, edges |-> <<>>, card |-> decl, open |-> TRUE]

ELGrow(kind, card, u, v) ==
  IF kind = "uni" THEN << Max2(card[1], Max2(u, v) + 1) >>
                  ELSE << Max2(card[1], u + 1), Max2(card[2], v + 1) >>

ELZero(na) == [j \in 1..(na + 2) |-> 0]

ELResize(na, edges, n) ==
  IF n <= Len(edges) THEN SubSeq(edges, 1, n)
  ELSE edges \o [j \in 1..(n - Len(edges)) |-> ELZero(na)]

(* Appending needs an open list; everything else is always allowed. *)
ELPre(s, op) == op.k \in {"push", "pusht"} => s.open

ELPost(s, op) ==
  CASE op.k \in {"push", "pusht"} ->
         [s EXCEPT !.edges = Append(@, <<op.u, op.v>> \o op.a), !.card = ELGrow(s.kind, s.card, op.u, op.v)]
    [] op.k = "open"    -> [s EXCEPT !.open = TRUE]
    [] op.k = "close"   -> [s EXCEPT !.open = FALSE]
    [] op.k = "resize"  -> [s EXCEPT !.edges = ELResize(s.na, @, op.n)]
    [] op.k = "clear"   -> [s EXCEPT !.edges = <<>>]
    [] op.k \in {"reserve", "copy", "assign", "move", "read"} -> s

(* Construction from an initializer list: append everything, then close. *)
RECURSIVE ELPushAll(_, _, _)
ELPushAll(s, E, j) == IF j > Len(E) THEN s
                      ELSE ELPushAll(ELPost(s, [k |-> "push", u |-> E[j][1], v |-> E[j][2],
                                                a |-> SubSeq(E[j], 3, Len(E[j]))]), E, j + 1)
ELGiven(kind, na, decl, E) == [ELPushAll(ELInit(kind, na, decl), E, 1) EXCEPT !.open = FALSE]

(* What an observer of the public interface sees. *)
ELView(s) == [edges |-> s.edges, size |-> Len(s.edges), m |-> Len(s.edges), nv |-> s.card]
=============================================================================
