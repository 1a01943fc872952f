----------------------------- MODULE BenchTrace -----------------------------
(* Conformance of the benchmark drivers: what they print, log and load.      *)
EXTENDS TraceUtil, Bench
P == INSTANCE PageRank
Start(t) == [f |-> t.file, und |-> TLCEval(Und(t.file)), dir |-> TLCEval(Out(t.file))]
WhyDegrees(s, ev) == IF ev.deg = [v \in 1..Dim(s.f) |-> Occurs(s.f, ev.idx)[v - 1]] THEN "" ELSE "incoming edges of every vertex"
WhySources(s, ev) == FirstFail(<< <<RandomWhy(s.f, ev.idx, ev.src, ev.n), RandomWhy(s.f, ev.idx, ev.src, ev.n) = "">>,
                                  <<"the same sources for the same graph and seed", ev.again = ev.src>> >>)
WhyLoad(s, ev) ==
  LET want == ReadEntries(s.f, ev.dir, ev.attr, 1) IN
  FirstFail(<< <<"number of vertices", ev.nv = Dim(s.f)>>, <<"edges of the file", SameBag(ev.recs, want)>> >>)
WhyTimes(ev) ==
  LET K == Rng([j \in 1..Len(ev.adds) |-> SubSeq(ev.adds[j], 1, 3)])
      Of(k) == LET x == SelectSeq(ev.adds, LAMBDA a : SubSeq(a, 1, 3) = k) IN [j \in 1..Len(x) |-> x[j][4]] IN
  FirstFail(<< <<"one line per configuration", Len(ev.rows) = Cardinality(K) /\ Rng([j \in 1..Len(ev.rows) |-> SubSeq(ev.rows[j], 1, 3)]) = K>>,
               <<"smallest, mean and largest time", \A j \in 1..Len(ev.rows) : StatsOk(Of(SubSeq(ev.rows[j], 1, 3)), ev.rows[j][4], ev.rows[j][5], ev.rows[j][6])>> >>)
(* ---- the programs ------------------------------------------------------- *)
(* log lines: version, threads, extra columns *)
LogWhy(ev, times) == IF SameBag([j \in 1..Len(ev.log) |-> <<ev.log[j][1], ev.log[j][2]>>], Combos(ev.ids, ev.threads, times)) THEN "" ELSE "one log line per run"
Common(ev, times) ==
  << <<"the driver complains", ev.complaints = 0>>,
     <<TableWhy(ev.ids, ev.threads, ev.table), TableWhy(ev.ids, ev.threads, ev.table) = "">>,
     <<"one log line per run", ~ev.logged \/ LogWhy(ev, times) = "">>,
     <<"name of the graph in the log", ~ev.logged \/ \A j \in 1..Len(ev.stems) : ev.stems[j] = ev.stem>> >>
(* sources wanted: as given, or any valid ones, the same in every round      *)
RoundsOk(s, ev, n, used) ==
  LET rounds == Len(ev.ids) * Len(ev.threads) IN
  CASE Len(used) # rounds * n -> "number of sources used"
    [] \E j \in 1..Len(used) : used[j] # used[((j - 1) % n) + 1] -> "the same sources for every version and number of threads"
    [] Len(ev.given) > 0 -> IF SubSeq(used, 1, n) = ev.given THEN "" ELSE "the sources asked for"
    [] OTHER -> RandomWhy(s.f, ev.idx, SubSeq(used, 1, n), n)
WhyTc(s, ev) ==
  LET t == TLCEval(TriangleCount(s.und)) IN
  FirstFail(<< <<"the driver complains", ev.complaints = 0>>,
               <<"number of triangles found by the verifier", ~ev.verify \/ ev.verified = <<t>> >>,
               <<"every version, number of threads and trial once, in order",
                 [j \in 1..Len(ev.results) |-> <<ev.results[j][1], ev.results[j][2]>>] = Combos(ev.ids, ev.threads, ev.trials)
                 /\ \A j \in 1..Len(ev.results) : ev.results[j][3] = (j - 1) % ev.trials>>,
               <<"number of triangles", \A j \in 1..Len(ev.results) : ev.results[j][4] = t>> >>)
WhyCc(s, ev) ==
  LET z == TLCEval(Largest(IF ev.sym THEN s.und ELSE Sym(s.dir))) k == MinOf(5, Len(z)) IN
  FirstFail(Common(ev, ev.trials) \o
    << <<"a report for every run", Len(ev.ncomp) = Len(ev.ids) * Len(ev.threads) * ev.trials /\ Len(ev.sizes) = Len(ev.ncomp)>>,
       <<"number of components", \A j \in 1..Len(ev.ncomp) : ev.ncomp[j] = Len(z)>>,
       <<"sizes of the largest components", \A j \in 1..Len(ev.sizes) : [a \in 1..Len(ev.sizes[j]) |-> ev.sizes[j][a][2]] = SubSeq(z, 1, k)>>,
       <<"labels of the components", \A j \in 1..Len(ev.sizes) : Distinct([a \in 1..Len(ev.sizes[j]) |-> ev.sizes[j][a][1]])>> >>)
WhyBfs(s, ev) == FirstFail(Common(ev, ev.trials) \o << <<RoundsOk(s, ev, ev.trials, ev.used), RoundsOk(s, ev, ev.trials, ev.used) = "">> >>)
WhySssp(s, ev) ==
  LET n == ev.trials * ev.iterations used == [j \in 1..Len(ev.used) |-> ev.used[j]] IN
  FirstFail(Common(ev, ev.trials) \o << <<RoundsOk(s, ev, n, used), RoundsOk(s, ev, n, used) = "">> >>)
WhyBc(s, ev) == FirstFail(Common(ev, ev.trials))
(* ranks: one sequence of <<vertex, rank in millionths>> per version and number of threads *)
RankWhy(s, ev, r) ==
  LET n == Dim(s.f) IN
  CASE Len(r) # MinOf(10, n) -> "number of ranks printed"
    [] ~Distinct(Firsts(r)) \/ \E j \in 1..Len(r) : r[j][1] \notin 0..(n - 1) -> "a rank belongs to a vertex"
    [] \E j \in 1..(Len(r) - 1) : r[j][2] < r[j + 1][2] -> "largest ranks first"
    [] n > 10 \/ \E v \in DOMAIN s.dir : s.dir[v] = {} -> ""
    [] OTHER -> LET E == Directed(s.f)
                    R == [v \in 1..n |-> LET x == SelectSeq(E, LAMBDA e : e[2] = v - 1) IN [j \in 1..Len(x) |-> x[j][1]]]
                    x == [v \in 1..n |-> LET j == CHOOSE k \in 1..n : r[k][1] = v - 1 IN r[j][2]] IN
                P!FixWhy(R, TLCEval(P!OutDegrees(R)), x, 17, 20, 1000000, ev.thr, 20)
WhyPr(s, ev) ==
  LET bad == {j \in 1..Len(ev.ranks) : RankWhy(s, ev, ev.ranks[j]) # ""} IN
  FirstFail(Common(ev, ev.trials) \o
    << <<"ranks for every version and number of threads", Len(ev.ranks) = Len(ev.ids) * Len(ev.threads)>>,
       <<IF bad = {} THEN "" ELSE RankWhy(s, ev, ev.ranks[SetMin(bad)]), bad = {}>> >>)
(* sources: compares the given sources with random ones *)
WhyCompare(s, ev) ==
  LET n == Len(ev.given) m == Len(ev.diff) IN
  FirstFail(<< <<"number of differences", ev.failures = m>>,
               <<"no difference to sources made with this seed", ~ev.own \/ m = 0>>,
               <<"the differences", m <= n /\ \A j \in 1..m : ev.diff[j][1] # ev.diff[j][2] /\ ev.diff[j][1] \in Rng(ev.given)>>,
               <<"a random source is valid", \A j \in 1..m : RandomWhy(s.f, 1, <<ev.diff[j][2]>>, 1) = "">> >>)
Why(t, s, ev) ==
  CASE ev.k = "degrees" -> WhyDegrees(s, ev)
    [] ev.k = "sources" -> WhySources(s, ev)
    [] ev.k = "file_sources" -> IF ev.got = ev.given THEN "" ELSE "the sources in the file"
    [] ev.k = "load" -> WhyLoad(s, ev)
    [] ev.k = "times" -> WhyTimes(ev)
    [] ev.k = "tc" -> WhyTc(s, ev)
    [] ev.k = "cc" -> WhyCc(s, ev)
    [] ev.k = "bfs" -> WhyBfs(s, ev)
    [] ev.k = "sssp" -> WhySssp(s, ev)
    [] ev.k = "bc" -> WhyBc(s, ev)
    [] ev.k = "pr" -> WhyPr(s, ev)
    [] ev.k = "compare" -> WhyCompare(s, ev)
    [] OTHER -> "unknown event"
Post(t, s, ev) == s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
