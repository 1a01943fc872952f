---------------------------- MODULE RecordsTrace ----------------------------
(* Conformance of the record containers, their iterators, the algorithms run *)
(* through them, and the proxy sorts.                                        *)
EXTENDS TraceUtil, Records
Start(t) == t.start
Why(t, s, ev) ==
  CASE ev.k = "op" ->
         FirstFail(<< <<"outcome of the operation", Outcome(s, ev.op, ev.a, ev.b, ev.x, t.w, ev.rows)>>,
                      <<"size", ev.size = Len(ev.rows)>>,
                      <<"indexed access", ev.index = ev.rows>>,
                      <<"const iteration", ev.crows = ev.rows>>,
                      <<"reverse iteration", Has(ev, "rrows") => ev.rrows = Reverse(ev.rows)>>,
                      <<"columns", Has(ev, "cols") => /\ \A q \in 1..t.w : Len(ev.cols[q]) = Len(ev.rows)
                                                        /\ Recs(ev.cols) = ev.rows>>,
                      <<"returned value", Has(ev, "ret") => CASE ev.op \in {"stablepart", "partition"} -> ev.ret = Len(SelectSeq(s, LAMBDA y : Key(y) < ev.a))
                                                            [] ev.op = "rotate" -> ev.ret = Len(s) - ev.a
                                                            [] OTHER -> ev.ret = Len(ev.rows)>> >>)
    [] ev.k = "query" ->
         LET hits(v) == {j \in 1..Len(s) : Key(s[j]) = v} IN
         FirstFail(<< <<"count_if", ev.count = Cardinality(hits(ev.v))>>,
                      <<"find_if", ev.find = IF hits(ev.v) = {} THEN Len(s) ELSE SetMin(hits(ev.v)) - 1>>,
                      <<"min_element", Len(s) > 0 => s[ev.min + 1] = ev.minrec /\ \A j \in 1..Len(s) : Le(ev.minrec, s[j])>>,
                      <<"for_each", ev.each = s>>,
                      <<"equal", ev.eq = TRUE>>,
                      <<"comparison of two containers", Has(ev, "same") => ev.same = (s = ev.other)>> >>)
    [] ev.k = "iter" ->
         FirstFail(<< <<"difference", ev.d = ev.j - ev.i>>,
                      <<"comparisons", ev.cmp = <<ev.i < ev.j, ev.i <= ev.j, ev.i = ev.j, ev.i # ev.j, ev.i > ev.j, ev.i >= ev.j>> >>,
                      <<"dereference", \A r \in Rng(ev.at) : r = s[ev.i + 1]>>,
                      <<"steps", ev.steps = <<ev.i, ev.i + 1, ev.i + 1, ev.i, ev.i + 1, ev.i, ev.j, ev.i, ev.i>> >> >>)
    [] ev.k = "proxysort" ->
         FirstFail(<< <<"permutation", IsPerm(ev.perm, Len(ev.keys))>>,
                      <<"order", LET q == [j \in 1..Len(ev.perm) |-> ev.keys[ev.perm[j] + 1]] IN Asc(IF ev.desc THEN Reverse(q) ELSE q)>>,
                      <<"permuted reading", ev.read = [j \in 1..Len(ev.perm) |-> ev.keys[ev.perm[j] + 1]]>> >>)
Post(t, s, ev) == IF ev.k = "op" THEN ev.rows ELSE s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
