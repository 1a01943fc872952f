----------------------------- MODULE StoreTrace -----------------------------
(* Conformance of bipartite, list-based and standard-container graphs.  The  *)
(* abstract content is the same as for compressed adjacency: a number of     *)
(* outer entries and a bag of keyed entries.  Three kinds of cases:          *)
(*  "bi"    e: edges left -> right, decl: declared cardinalities             *)
(*  "uni"   e: edges, n: declared vertices, dir                              *)
(*  "label" lv, rv: vertex labels (rv = lv for a unipartite graph), e: edges *)
(*          between labels                                                   *)
EXTENDS TraceUtil, Csr

SideNeed(E, side) == IF E = <<>> THEN 0 ELSE 1 + SetMax({E[j][side + 1] : j \in 1..Len(E)})
Card(t, side) == MaxOf(t.decl[side + 1], SideNeed(t.e, side))
PosIn(labels, x) == CHOOSE p \in 0..(Len(labels) - 1) : labels[p + 1] = x
(* the index edges that a labelled edge container stands for *)
Plain(t) == [j \in 1..Len(t.e) |-> <<PosIn(t.lv, t.e[j][1]), PosIn(t.rv, t.e[j][2])>>]
WithIndex(t) == LET p == Plain(t) IN [j \in 1..Len(p) |-> Append(p[j], j - 1)]
WithProps(t) == LET p == Plain(t) IN [j \in 1..Len(p) |-> p[j] \o Tail2(t.e[j])]
(* edges between rows of h that meet in a common middle vertex *)
JoinRow(g, h, u) ==
  FlattenSeq([k \in 1..Len(h[u]) |->
     LET mid == h[u][k][1]
         far == SelectSeq(g[mid + 1], LAMBDA j : j[1] # u - 1)
     IN [j \in 1..Len(far) |-> <<far[j][1], mid>>]])
Join(g, h) == [u \in 1..Len(h) |-> JoinRow(g, h, u)]

Start(t) == IF t.kind = "label" THEN [plain |-> Plain(t), index |-> WithIndex(t), props |-> WithProps(t)] ELSE <<>>

Size(t, ev) ==
  LET base == CASE t.kind = "bi" -> Card(t, ev.idx)
                [] t.kind = "uni" -> MaxOf(t.n, NeedV(t.e))
                [] OTHER -> IF ev.idx = 0 THEN Len(t.lv) ELSE Len(t.rv)
  IN MaxOf(base, Opt(ev, "n", 0))
Source(t, s, ev) == IF t.kind = "label" THEN s[ev.from] ELSE t.e
StoreWhy(t, s, ev) ==
  LET o == ev.obs
      n == Size(t, ev)
      ents == Entries(Source(t, s, ev), ev.idx, Opt(ev, "dir", TRUE))
      rl == RowLens(o.rows)
  IN FirstFail(<<
       <<"number of outer entries", Len(o.rows) = n>>,
       <<"entries", SameBag(Flat(o.rows), ents)>>,
       <<"outer size", o.size = n>>,
       <<"entries (const)", Has(o, "crows") => o.crows = o.rows>>,
       <<"entries (index)", Has(o, "irows") => o.irows = o.rows>>,
       <<"degree by vertex", Has(o, "deg") => o.deg = rl>>,
       <<"degree by neighborhood", Has(o, "degn") => o.degn = rl>>,
       <<"num_vertices", Has(o, "nv") => o.nv = n>>,
       <<"num_edges", Has(o, "m") => o.m = Len(ents)>>,
       <<"returned count", Has(ev, "ret") => ev.ret = Len(ents)>>,
       <<"both cardinalities", Has(ev, "nvs") => ev.nvs = <<n, MaxOf(Card(t, 1 - ev.idx), Opt(ev, "n1", 0))>> >>,
       <<"sorted", Opt(ev, "sorted", FALSE) => \A u \in 1..n : Asc(Firsts(o.rows[u]))>>
     >>)
(* very many vertices: only the rows that hold entries are recorded *)
WideWhy(t, s, ev) ==
  LET o == ev.obs
      n == Size(t, ev)
      ents == Entries(Source(t, s, ev), ev.idx, Opt(ev, "dir", TRUE))
      sl == SpLens(o.sp)
  IN FirstFail(<<
       <<"rows", SpOk(o.sp, n)>>, <<"outer size", o.size = n>>,
       <<"entries", SameBag(SpFlat(o.sp), ents)>>,
       <<"entries (const)", o.csp = o.sp>>, <<"entries (index)", Has(o, "isp") => o.isp = o.sp>>,
       <<"degree by vertex", Has(o, "deg") => o.deg = sl>>, <<"degree by neighborhood", Has(o, "degn") => o.degn = sl>>,
       <<"num_vertices", Has(o, "nv") => o.nv = n>>, <<"num_edges", Has(o, "m") => o.m = Len(ents)>>,
       <<"returned count", Has(ev, "ret") => ev.ret = Len(ents)>>,
       <<"both cardinalities", Has(ev, "nvs") => ev.nvs = <<n, MaxOf(Card(t, 1 - ev.idx), Opt(ev, "n1", 0))>> >>,
       <<"sorted", Opt(ev, "sorted", FALSE) => \A k \in 1..Len(o.sp) : Asc(Firsts(o.sp[k][2]))>>
     >>)
Why(t, s, ev) ==
  CASE ev.k = "store" -> IF Has(ev.obs, "sp") THEN WideWhy(t, s, ev) ELSE StoreWhy(t, s, ev)
    [] ev.k = "edges" -> IF ev.edges = s[ev.from] THEN "" ELSE "index edges"
    [] ev.k = "join" -> FirstFail(<< <<"rows of the join", Len(ev.rows) = Len(ev.h)>>,
                                     <<"entries of the join", \A u \in 1..Len(ev.h) : SameBag(ev.rows[u], JoinRow(ev.g, ev.h, u))>> >>)
Post(t, s, ev) == s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
