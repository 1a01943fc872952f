-------------------------- MODULE MatrixMarketTrace --------------------------
(* Conformance of the Matrix Market reader and writer.  The state is the     *)
(* file on disk and the list in memory; "put" events give one of them, and   *)
(* "read"/"write" events move content between them through the library.      *)
EXTENDS TraceUtil, MatrixMarket
Start(t) == [f |-> <<>>, l |-> <<>>]
Why(t, s, ev) ==
  CASE ev.k = "put" -> ""
    [] ev.k = "read" ->
         LET x == ReadList(s.f, ev.dir, ev.attr, ev.one) IN
         FirstFail(<< <<"entries read", SameBag(ev.l.ents, x.ents)>>,
                      <<"vertex count", IF Has(ev, "nvs") THEN ev.nvs = <<s.f.rows, s.f.cols>> ELSE ev.l.n = x.n>> >>)
    [] ev.k = "mapped" ->
         FirstFail(<< <<"dimensions of the mapped file", ev.rows = s.f.rows /\ ev.cols = s.f.cols>>,
                      <<"number of entries of the mapped file", ev.nnz = Len(s.f.ents)>>,
                      <<"kind of the mapped file", ev.pat = ~s.f.val /\ ev.issym = (s.f.sym = "symmetric")>>,
                      <<"entries of the mapped file", FlattenSeq(ev.pieces) = MappedEntries(s.f, ev.n)>> >>)
    [] ev.k = "vector" ->
         FirstFail(<< <<"length of the vector", Len(ev.got) = Len(ev.want)>>, <<"values of the vector", ev.got = ev.want>> >>)
    [] ev.k = "meta" ->
         FirstFail(<< <<"is_mm", ev.ismm = ev.want>>,
                      <<"symmetry", Has(ev, "und") => ev.und = (s.f.sym = "symmetric")>> >>)
    [] OTHER ->
         LET x == IF ev.k = "write" THEN WriteList(s.l, ev.sym, ev.w) ELSE WriteAdj(s.l, ev.idx, ev.sym, ev.w)
             y == [x EXCEPT !.rows = IF Has(ev, "nvs") THEN ev.nvs[1] ELSE @, !.cols = IF Has(ev, "nvs") THEN ev.nvs[2] ELSE @]
         IN FirstFail(<< <<"header", ev.f.magic = "%%MatrixMarket matrix coordinate" /\ ev.f.sym = y.sym /\ ev.f.val = y.val>>,
                         <<"dimensions", ev.f.rows = y.rows /\ ev.f.cols = y.cols>>,
                         <<"entries inside the dimensions", \A z \in Rng(ev.f.ents) : z[1] \in 1..ev.f.rows /\ z[2] \in 1..ev.f.cols>>,
                         <<"number of entries stated", ev.f.nnz = Len(y.ents)>>,
                         <<"entries written", SameBag(ev.f.ents, y.ents)>> >>)
Post(t, s, ev) ==
  CASE ev.k = "put" -> [f |-> IF Has(ev, "f") THEN ev.f ELSE s.f, l |-> IF Has(ev, "l") THEN ev.l ELSE s.l]
    [] ev.k = "read" -> [s EXCEPT !.l = ev.l]
    [] ev.k \in {"vector", "meta", "mapped"} -> s
    [] OTHER -> [s EXCEPT !.f = ev.f]
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
