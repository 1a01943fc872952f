----------------------------- MODULE RangesTrace -----------------------------
(* Conformance of the vertex, plain, neighbor and edge ranges and of the     *)
(* outer and inner iterators.  Content: n, e, idx, dir as in CsrTrace.       *)
EXTENDS TraceUtil, Ranges
Start(t) == <<>>
Expected(s, ev) ==
  CASE ev.what \in {"vertex", "plain"} -> Vertices(s, ev.off)
    [] ev.what = "degree" -> DegreesOf(s)
    [] ev.what = "neighbor" -> Neighborhoods(s, ev.off)
    [] ev.what = "edge" -> EdgesFrom(s, ev.off, ev.cols)
    [] ev.what = "outer" -> s
    [] ev.what = "outer backwards" -> Reverse(s)
    [] ev.what = "inner backwards" -> [j \in 1..Len(s) |-> Reverse(s[j])]
Why(t, s, ev) ==
  CASE ev.k = "rows" ->
         FirstFail(<< <<"number of vertices", Len(ev.rows) = t.n>>,
                      <<"edges of the graph", SameBag(Flat(ev.rows), Entries(t.e, ev.idx, ev.dir))>> >>)
    [] ev.k = "enum" ->
         LET x == Expected(s, ev) IN
         FirstFail(<< <<ev.what, ev.seq = x>>,
                      <<"size", Has(ev, "size") => ev.size = IF ev.what = "edge" THEN Len(s) - ev.off ELSE Len(x)>>,
                      <<"empty", Has(ev, "empty") => ev.empty = (x = <<>>)>>,
                      <<"distance", Has(ev, "dist") => ev.dist = Len(x)>> >>)
    [] ev.k = "iter" ->
         FirstFail(<< <<"difference", ev.d = ev.j - ev.i>>,
                      <<"comparisons", ev.cmp = <<ev.i < ev.j, ev.i <= ev.j, ev.i = ev.j, ev.i # ev.j, ev.i > ev.j, ev.i >= ev.j>> >>,
                      <<"dereference", \A r \in Rng(ev.at) : r = IF Has(ev, "ids") THEN <<ev.i>> ELSE IF Has(ev, "row") THEN s[ev.row + 1][ev.i + 1] ELSE s[ev.i + 1]>>,
                      <<"steps", ev.steps = <<ev.i, ev.i + 1, ev.i + 1, ev.i, ev.i + 1, ev.i, ev.j, ev.i, ev.i>> >> >>)
    [] ev.k = "write" ->   \* every attribute selected by the edge range increased by ev.by
         FirstFail(<< <<"writing through the edge range",
                        ev.rows = [u \in 1..Len(s) |-> [k \in 1..Len(s[u]) |-> [s[u][k] EXCEPT ![2] = @ + ev.by]]]>> >>)
Post(t, s, ev) == IF ev.k \in {"rows", "write"} THEN ev.rows ELSE s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
