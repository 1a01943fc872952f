-------------------------------- MODULE Csr --------------------------------
(* Abstract content of an adjacency structure: a number of rows and the bag  *)
(* (kept as a sequence) of entries <<vertex, neighbor, attributes...>>.      *)
EXTENDS Graph
CsrEmpty(n) == [n |-> n, ents |-> <<>>]
CsrOfEdges(E, idx, directed, n) == [n |-> MaxOf(n, NeedV(E)), ents |-> Entries(E, idx, directed)]
(* push_back(u, x...): the entry goes to row u, rows are created as needed *)
CsrPush(s, u, x) == [n |-> MaxOf(s.n, u + 1), ents |-> Append(s.ents, <<u>> \o x)]
(* join of two stores: every row of the second appended to the first *)
CsrMap(s, f(_)) == [s EXCEPT !.ents = [j \in 1..Len(s.ents) |-> LET x == s.ents[j] IN <<f(x[1]), f(x[2])>> \o Tail2(x)]]
CsrKeep(s, P(_)) == [s EXCEPT !.ents = SelectSeq(s.ents, P)]
=============================================================================
