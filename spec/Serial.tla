------------------------------- MODULE Serial -------------------------------
(* Binary storage: objects hold contents; a stream is a queue of contents    *)
(* and a file holds the last content saved to it.                            *)
EXTENDS Integers, Sequences
SerInit == [slot |-> <<>>, stream |-> <<>>, file |-> <<>>]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
SerPre(s, op, slot, file) ==
  CASE op \in {"write", "save"} -> slot \in DOMAIN s.slot
    [] op = "read" -> s.stream # <<>>
    [] op = "load" -> file \in DOMAIN s.file
    [] OTHER -> TRUE
(* content of the slot after the operation; x is the content given to make *)
SerSees(s, op, slot, file, x) ==
  CASE op = "make" -> x
    [] op \in {"write", "save"} -> s.slot[slot]
    [] op = "read" -> Head(s.stream)
    [] op = "load" -> s.file[file]
SerPost(s, op, slot, file, x) ==
  LET v == SerSees(s, op, slot, file, x) IN
  [slot |-> Put(s.slot, slot, v),
   stream |-> CASE op = "write" -> Append(s.stream, v) [] op = "read" -> Tail(s.stream) [] OTHER -> s.stream,
   file |-> IF op = "save" THEN Put(s.file, file, v) ELSE s.file]
=============================================================================
