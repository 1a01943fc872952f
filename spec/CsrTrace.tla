------------------------------ MODULE CsrTrace ------------------------------
(* Conformance of adjacency structures: what an observer sees of the built   *)
(* structure is exactly the keyed content of its edge list.                  *)
(* Case: n (declared vertices), e (edges with attributes), dir, idx.         *)
EXTENDS TraceUtil, Csr

Start(t) == IF Has(t, "e") THEN CsrOfEdges(t.e, t.idx, t.dir, t.n) ELSE CsrEmpty(t.n)

Post(t, s, ev) == CASE ev.k = "push" -> CsrPush(s, ev.u, ev.x) [] OTHER -> s

(* ev.obs: rows (mutable view), crows (const view), irows (by index), size, dist, nv, m, deg... *)
(* very many vertices: only the rows that hold entries are recorded *)
WideWhy(s, ev, o, n) ==
  LET sl == SpLens(o.sp) IN
  FirstFail(<<
       <<"outer size", o.size = n>>, <<"distance begin to end", o.dist = n>>, <<"rows", SpOk(o.sp, n)>>,
       <<"num_vertices", o.nv = n>>, <<"num_edges", o.m = Len(s.ents)>>,
       <<"entries", SameBag(SpFlat(o.sp), s.ents)>>,
       <<"entries (const)", o.csp = o.sp>>, <<"entries (index)", o.isp = o.sp>>,
       <<"row sizes", o.rsz = sl>>,
       <<"degree by vertex", o.deg = sl>>, <<"degree by neighborhood", o.degn = sl>>,
       <<"returned count", Has(ev, "ret") => ev.ret = Len(s.ents)>>,
       <<"sorted", Opt(ev, "sorted", FALSE) => \A k \in 1..Len(o.sp) : Asc(Firsts(o.sp[k][2]))>>,
       <<"row order", Opt(ev, "ordered", FALSE) => SpFlat(o.sp) = s.ents>>,
       <<"index array", Has(o, "ind") => o.inds = n + 1 /\ o.ind = [k \in 1..Len(sl) |-> <<sl[k][1] + 1, sl[k][2]>>]>>,
       <<"source of entry", Has(o, "src") => o.src = Firsts(SpFlat(o.sp))>>
     >>)
Why(t, s0, ev) ==
  LET s == Post(t, s0, ev) IN
  IF ev.k = "push" THEN ""
  ELSE IF Has(ev.obs, "sp") THEN WideWhy(s, ev, ev.obs, IF Has(ev, "n") THEN MaxOf(ev.n, s.n) ELSE s.n) ELSE
  LET o == ev.obs
      n == IF Has(ev, "n") THEN MaxOf(ev.n, s.n) ELSE s.n
      rl == RowLens(o.rows)
  IN FirstFail(<<
       <<"outer size", o.size = n>>, <<"distance begin to end", o.dist = n>>, <<"rows visited", Len(o.rows) = n>>,
       <<"num_vertices", o.nv = n>>, <<"num_edges", o.m = Len(s.ents)>>,
       <<"entries", SameBag(Flat(o.rows), s.ents)>>,
       <<"entries (const)", o.crows = o.rows>>, <<"entries (index)", o.irows = o.rows>>,
       <<"row sizes", o.rsz = rl>>,
       <<"degree by vertex", o.deg = rl>>, <<"degree by neighborhood", o.degn = rl>>,
       <<"returned count", Has(ev, "ret") => ev.ret = Len(s.ents)>>,
       <<"sorted", Opt(ev, "sorted", FALSE) => \A u \in 1..n : Asc(Firsts(o.rows[u]))>>,
       <<"row order", Opt(ev, "ordered", FALSE) => Flat(o.rows) = s.ents>>,
       <<"index array", Has(o, "ind") => /\ Len(o.ind) = n + 1 /\ o.ind[1] = 0
                                         /\ \A u \in 1..n : o.ind[u + 1] - o.ind[u] = rl[u]>>,
       <<"source of entry", Has(o, "src") => o.src = Firsts(Flat(o.rows))>>
     >>)
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
