----------------------------- MODULE PassTrace -----------------------------
(* Conformance of the clean-up, ordering and renaming passes.  The state is  *)
(* the content (edge sequence or adjacency rows) left by the previous pass.  *)
EXTENDS TraceUtil, EdgeOps

Start(t) == [E |-> Opt(t, "e", <<>>), rows |-> Opt(t, "rows", <<>>)]
Post(t, s, ev) == [E |-> IF Has(ev, "edges") THEN ev.edges ELSE s.E, rows |-> IF Has(ev, "obs") THEN ev.obs.rows ELSE s.rows]

(* Renaming read off two edge sequences that correspond edge by edge. *)
ReadOff(E, F) == {<<E[j][1], F[j][1]>> : j \in 1..Len(E)} \cup {<<E[j][2], F[j][2]>> : j \in 1..Len(E)}
Bijective(R) == \A x, y \in R : (x[1] = y[1]) = (x[2] = y[2])
(* ... and it lists vertices by degree, isolated ones taking the remaining ids *)
ByDegree(R, deg, n, direction) ==
  LET used == {x[2] : x \in R}
      degOf(k) == IF k \in used THEN deg[(CHOOSE x \in R : x[2] = k)[1] + 1] ELSE 0
  IN used \subseteq 0..(n - 1) /\ InOrder([k \in 1..n |-> degOf(k - 1)], direction)

EdgeWhy(t, s, ev) ==
  LET E == s.E  F == ev.edges IN
  FirstFail(<<
    <<"sort_by", ev.op = "sort" => SortOK(E, F, ev.idx)>>,
    <<"stable_sort_by", ev.op = "stable" => StableOK(E, F, ev.idx)>>,
    <<"lexical_sort_by", ev.op = "lex" => LexOK(E, F, ev.idx)>>,
    <<"lexical_stable_sort_by", ev.op = "lexstable" => LexStableOK(E, F, ev.idx)>>,
    <<"swap_to_triangular", ev.op = "tri" => F = Triangular(E, ev.idx, ev.side)>>,
    <<"remove_self_loops", ev.op = "noloops" => F = NoLoops(E)>>,
    <<"uniq", ev.op = "uniq" => F = Uniq(E)>>,
    <<"unchanged", ev.op \in {"degrees", "perm"} => F = E>>,
    <<"degrees", ev.op = "degrees" => ev.deg = EdgeDegrees(E, t.nv[IF t.bi THEN ev.idx + 1 ELSE 1], ev.idx, t.dir)>>,
    <<"perm_by_degree", ev.op = "perm" => DegreeOrder(ev.perm, EdgeDegrees(E, t.nv[IF t.bi THEN ev.idx + 1 ELSE 1], ev.idx, t.dir), ev.side)>>,
    <<"returned renaming", ev.op \in {"relabel", "relabelside"} => ev.map = InvPerm(ev.perm)>>,
    <<"relabel", ev.op = "relabel" => F = Rename(E, ev.map)>>,
    <<"relabel one side", ev.op = "relabelside" => F = RenameSide(E, ev.map, ev.idx)>>,
    <<"relabel_by_degree order", ev.op = "bydegree" /\ Has(ev, "map") => DegreeMap(ev.map, EdgeDegrees(E, t.nv[1], ev.idx, t.dir), ev.side)>>,
    <<"relabel_by_degree", ev.op = "bydegree" /\ Has(ev, "map") => F = Rename(E, ev.map)>>,
    <<"relabel_by_degree attributes", ev.op = "bydegree" => Len(E) = Len(F) /\ \A j \in 1..Len(E) : Tail2(E[j]) = Tail2(F[j])>>,
    <<"relabel_by_degree renaming", ev.op = "bydegree" => Bijective(ReadOff(E, F))>>,
    <<"relabel_by_degree degrees", ev.op = "bydegree" => ByDegree(ReadOff(E, F), EdgeDegrees(E, t.nv[1], ev.idx, t.dir), t.nv[1], ev.side)>>,
    <<"size", ev.size = Len(F)>>,
    <<"num_vertices", ev.nv = t.nv>>
  >>)
(* entries correspond by their (unique) attribute *)
EntryPairs(A, B) == LET fa == Flat(A) fb == Flat(B) IN {<<fa[j], CHOOSE y \in Rng(fb) : y[3] = fa[j][3]>> : j \in 1..Len(fa)}
RowWhy(t, s, ev) ==
  LET A == s.rows  B == ev.obs.rows  o == ev.obs  n == Len(A)  deg == RowLens(A) IN
  FirstFail(<<
    <<"rows", Len(B) = n /\ o.size = n>>,
    <<"content", ev.op = "start" => B = A>>,
    <<"triangularize", ev.op = "tri" => B = RowsKept(A, LAMBDA x, u : IF ev.side = "predecessor" THEN x < u ELSE x > u)>>,
    <<"triangularize with comparison", ev.op = "tricmp" => B = RowsKept(A, LAMBDA x, u : IF ev.side = "leq" THEN x <= u ELSE x >= u)>>,
    <<"degrees", ev.op = "degrees" => B = A /\ ev.deg = deg>>,
    <<"permute_by_degree order", ev.op = "permute" => DegreeMap(ev.map, deg, ev.side)>>,
    <<"permute_by_degree rows", ev.op = "permute" => RowsMoved(A, B, ev.map)>>,
    <<"relabel_to_be_indexed", ev.op = "relabel" => RowsRenamed(A, B, ev.map)>>,
    <<"sort_to_be_indexed", ev.op = "sort" => \A u \in 1..n : SameBag(A[u], B[u]) /\ Asc(Firsts(B[u]))>>,
    <<"sort_by_degree entries", ev.op = "bydegree" => Cardinality({x[3] : x \in Rng(Flat(A))}) = Len(Flat(A)) /\ {x[3] : x \in Rng(Flat(A))} = {x[3] : x \in Rng(Flat(B))} /\ Len(Flat(A)) = Len(Flat(B))>>,
    <<"sort_by_degree renaming", ev.op = "bydegree" => LET P == EntryPairs(A, B) R == {<<x[1][1], x[2][1]>> : x \in P} \cup {<<x[1][2], x[2][2]>> : x \in P} IN
                                   Bijective(R) /\ \A x \in P : SubSeq(x[1], 3, Len(x[1])) = SubSeq(x[2], 3, Len(x[2]))>>,
    <<"sort_by_degree order", ev.op = "bydegree" => InOrder(RowLens(B), ev.side) /\ \A u \in 1..n : Asc(Firsts(B[u]))>>,
    <<"const view", o.crows = B>>, <<"by index", o.irows = B>>, <<"row sizes", o.rsz = RowLens(B) /\ o.deg = RowLens(B)>>,
    <<"num_edges", o.m = SumSeq(RowLens(B))>>,
    <<"index array", Len(o.ind) = n + 1 /\ o.ind[1] = 0 /\ \A u \in 1..n : o.ind[u + 1] - o.ind[u] = Len(B[u])>>
  >>)
Why(t, s, ev) == IF ev.k = "pass" THEN EdgeWhy(t, s, ev) ELSE RowWhy(t, s, ev)
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
