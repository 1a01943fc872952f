"""Registry: for each property its models, generators and conformance units."""
CHECKS = {}
def check(id, **kw): CHECKS[id] = dict(id=id, **kw)

def sched(name, src, spec, count=200, count_thorough=4000, parts=None, whole=False, thorough={}, **args):
    """The same driver under the controlled scheduler (harness/vsched.cpp): `schedules` schedules of every call
    (whole: every case under one schedule), on random graphs of which `layers` percent are layered."""
    a = dict(maxn=8, maxm=14, schedules=20, layers=40) if not whole else {}
    a.update(args)
    u = dict(name=name + "-schedules", src=src, spec=spec, flavour="sched", count=count, count_thorough=count_thorough, tlc_workers=2, args=a, args_thorough=dict(a, **dict(dict(maxn=11, maxm=20, schedules=40) if not whole else {}, **thorough)))
    if parts: u["parts"] = parts
    if whole: u["flags"] = ["-DVF_SCHED_CASES"]
    return u

check("C01",
  note="Edge-list state machine explored exhaustively within small bounds; every generated history (all short ones up to a cap, simulated long ones) and random histories of the real lists validated in full after each call. Bounded by the histories replayed; trusts the recording driver and TLC.",
  models=[dict(module="EdgeListMC", consts=dict(MaxV=2, Attr="{0}", MaxDecl=2, Depth=4, Gen="FALSE"), consts_thorough=dict(MaxV=2, Attr="{0,1}", MaxDecl=2, Depth=5, Gen="FALSE"),
               invs=["Content", "Cardinal", "SizeOk"], props=["Monotone"], view="View", workers=4)],
  gens=[dict(name="short", module="EdgeListMC", consts=dict(MaxV=1, Attr="{3}", MaxDecl=1, Depth=2, Gen="TRUE"), invs=["Emit"], cap=1500, cap_thorough=100000),
        dict(name="long", module="EdgeListMC", consts=dict(MaxV=6, Attr="{1,2}", MaxDecl=4, Depth=12, Gen="TRUE"), invs=["Emit"], simulate=(200, 14), simulate_thorough=(2000, 14))],
  units=[dict(name="edgelist-short", src="c01.cpp", spec="EdgeListTrace", cases="short", count=0, tlc_workers=3),
         dict(name="edgelist-long", src="c01.cpp", spec="EdgeListTrace", cases="long", count=8, count_thorough=300, tlc_workers=3)])

def graphgen(name, **k):
    """Enumeration of small input graphs from spec/GraphGen.tla."""
    q = dict(MinN=0, MaxN=3, MaxM=3, Weights="{1}", Simple="FALSE", Loops="TRUE", Half="FALSE", MinM=0)
    extra = {x: k.pop(x) for x in ("cap", "cap_thorough", "simulate", "simulate_thorough") if x in k}
    tq = dict(q, **k); tt = dict(tq, **extra.pop("thorough", k.pop("thorough", {})))
    tq.pop("thorough", None); tt.pop("thorough", None)
    return dict(name=name, module="GraphGen", consts=tq, consts_thorough=tt, invs=["Emit"], **extra)

check("C02",
  note="Every small edge list (TLC-enumerated) and random larger ones are built in every supported way; the observed structure is validated by TLC against the abstract content. The build algorithm itself is model-checked (CsrBuildMC). Bounded by inputs replayed.",
  models=[dict(module="CsrBuildMC", consts=dict(MaxN=2, MaxM=2, Weights="{1,2}"), consts_thorough=dict(MaxN=3, MaxM=3, Weights="{1}"), invs=["Exact", "IndexOk"])],
  gens=[graphgen("small", MaxN=3, MaxM=3, Weights="{1,5}", cap=500, cap_thorough=8000)],
  units=[dict(name="csr", src="c02.cpp", spec="CsrTrace", cases="small", count=25, count_thorough=400, parts=6, args=dict(big=4, wide=2), args_thorough=dict(big=12, wide=10), tlc_workers=2),
         sched("csr", "c02.cpp", "CsrTrace", parts=6, whole=True, count=40)])

check("C03",
  note="Every small graph (TLC-enumerated) and random larger ones are stored in each bipartite, list-based and standard-container form and through each builder; the result is validated by TLC against the abstract keyed content. Bounded by inputs replayed; vector<tuple> builders need user traits, which the driver supplies.",
  models=[dict(module="CsrBuildMC", consts=dict(MaxN=2, MaxM=2, Weights="{1}"), invs=["Exact", "IndexOk"])],
  gens=[graphgen("small", MaxN=3, MaxM=3, Weights="{1,5}", cap=400, cap_thorough=6000)],
  units=[dict(name="store", src="c03.cpp", spec="StoreTrace", cases="small", count=25, count_thorough=400, parts=4, args=dict(big=2, wide=2), args_thorough=dict(big=8, wide=10), tlc_workers=2)])

_edgeops = [dict(module="EdgeOpsMC", consts=dict(MaxN=2, MaxM=2, Weights="{1,2}", Depth=2, Gen="FALSE"), consts_thorough=dict(MaxN=3, MaxM=3, Weights="{1,2}", Depth=2, Gen="FALSE"),
                 invs=["NoInvention", "NoDuplication", "Loses", "Named", "SortedUniq"])]
_edgegens = [dict(name="small", module="EdgeOpsMC", consts=dict(MaxN=3, MaxM=3, Weights="{1,2}", Depth=1, Gen="TRUE"), invs=["Emit"], cap=400, cap_thorough=6000),
             dict(name="hist", module="EdgeOpsMC", consts=dict(MaxN=7, MaxM=12, Weights="{1,2,3}", Depth=6, Gen="TRUE"), invs=["Emit"], simulate=(60, 30), simulate_thorough=(1500, 30))]
check("C04",
  note="Pass histories enumerated/simulated from the specification and random ones run on real lists and adjacencies; TLC checks every pass as a relation between content before and after. The pass algebra is model-checked (EdgeOpsMC). Bounded by histories replayed.",
  models=_edgeops, gens=_edgegens,
  units=[dict(name="passes", src="c04.cpp", spec="PassTrace", cases="small", count=20, count_thorough=400, parts=6, args=dict(ops="clean", big=2), args_thorough=dict(ops="clean", big=8), tlc_workers=2),
         dict(name="histories", src="c04.cpp", spec="PassTrace", cases="hist", count=0, parts=6, args=dict(ops="clean"), tlc_workers=2),
         sched("passes", "c04.cpp", "PassTrace", parts=6, whole=True, count=40, ops="clean")])
check("C05",
  note="Renaming histories over generated and random graphs run on real lists and adjacencies; TLC checks that each pass renames by the returned (or read-off) bijection and orders by degree. Bounded by histories replayed.",
  models=_edgeops, gens=[graphgen("small", MinN=1, MaxN=3, MaxM=3, Weights="{1}", cap=400, cap_thorough=6000)],
  units=[dict(name="renames", src="c04.cpp", spec="PassTrace", cases="small", count=30, count_thorough=600, parts=6, args=dict(ops="rename", big=2), args_thorough=dict(ops="rename", big=4), tlc_workers=2),
         sched("renames", "c04.cpp", "PassTrace", parts=6, whole=True, count=40, ops="rename")])

check("C06",
  note="Histories of saves and loads (all short ones, simulated long ones) replayed on ten container types with bit-random contents; TLC checks every observed content against the storage specification. Bounded by histories replayed; only same-type reloads.",
  models=[dict(module="SerialMC", consts=dict(Slots="{1,2}", Files="{1}", Depth=5, Gen="FALSE"), consts_thorough=dict(Slots="{1,2}", Files="{1,2}", Depth=6, Gen="FALSE"), invs=["Known", "Written"])],
  gens=[dict(name="short", module="SerialMC", consts=dict(Slots="{1,2}", Files="{1}", Depth=3, Gen="TRUE"), invs=["Emit"], cap=300, cap_thorough=1000),
        dict(name="long", module="SerialMC", consts=dict(Slots="{1,2,3}", Files="{1,2}", Depth=14, Gen="TRUE"), invs=["Emit"], simulate=(200, 16), simulate_thorough=(600, 16))],
  units=[dict(name="short", src="c06.cpp", spec="SerialTrace", cases="short", count=20, parts=3, tlc_workers=2),
         dict(name="long", src="c06.cpp", spec="SerialTrace", cases="long", count=20, count_thorough=300, parts=3, tlc_workers=2)])

check("C07",
  note="Round-trip laws model-checked over all small files; every small file (TLC-enumerated) and random larger ones, in varied notation, read in every way (also by the memory-mapped reader, cut into pieces), written in every way, the written text parsed independently, and read back; TLC checks every step. Values are opaque tokens (the bits of the C library's parse). Bounded by files replayed.",
  models=[dict(module="MatrixMarketMC", consts=dict(MaxR=2, MaxC=2, MaxM=3, Vals="{1,2}", Gen="FALSE"), consts_thorough=dict(MaxR=3, MaxC=3, MaxM=3, Vals="{1,2}", Gen="FALSE"),
               invs=["RoundTripD", "RoundTripU", "RoundTripA", "Erase", "Sym", "GenSym", "Cover"]),
          dict(module="MappedMC", consts=dict(MaxLines=4, Lens="{4,5,9}"), consts_thorough=dict(MaxLines=6, Lens="{4,5,7,12}"), invs=["Monotone", "AtLine", "Covered"])],
  gens=[dict(name="files", module="MatrixMarketMC", consts=dict(MaxR=3, MaxC=3, MaxM=2, Vals="{3}", Gen="TRUE"), consts_thorough=dict(MaxR=3, MaxC=3, MaxM=3, Vals="{3}", Gen="TRUE"), invs=["Emit"], cap=300, cap_thorough=3000)],
  units=[dict(name="mmio", src="c07.cpp", spec="MatrixMarketTrace", cases="files", count=60, count_thorough=1000, args=dict(big=2), args_thorough=dict(big=16), tlc_workers=3)])

check("C08",
  note="Refinement of whole records by separate columns model-checked; every short operation history (TLC-enumerated, capped), simulated and random long ones over thirty operations run on six container types, contents validated by TLC after each call through every view. Bounded by histories replayed. Comparison of containers of different sizes is excluded.",
  models=[dict(module="RecordsMC", consts=dict(Width=2, MaxLen=3, Keys="{0,1}", Depth=4, Gen="FALSE", MaxA=0), consts_thorough=dict(Width=3, MaxLen=3, Keys="{0,1}", Depth=6, Gen="FALSE", MaxA=0),
               invs=["Refines", "Rect", "Whole"], view="View", workers=4)],
  gens=[dict(name="short", module="RecordsMC", consts=dict(Width=2, MaxLen=3, Keys="{0,1}", Depth=2, Gen="TRUE", MaxA=2), invs=["Emit"], cap=1200, cap_thorough=20000),
        dict(name="long", module="RecordsMC", consts=dict(Width=2, MaxLen=3, Keys="{0,1,2}", Depth=16, Gen="TRUE", MaxA=9), invs=["Emit"], simulate=(60, 18), simulate_thorough=(3000, 18))],
  units=[dict(name="short", src="c08.cpp", spec="RecordsTrace", cases="short", count=0, parts=3, tlc_workers=2),
         dict(name="long", src="c08.cpp", spec="RecordsTrace", cases="long", count=60, count_thorough=2000, parts=3, args=dict(big=3), args_thorough=dict(big=12), tlc_workers=2)])

check("C09",
  note="The edge iterator's skipping algorithm model-checked for every small shape and offset; on every small graph (TLC-enumerated) and random ones every range and iterator of nine graph types is run forwards, backwards and by arithmetic, and what it yields validated by TLC against the graph. Bounded by inputs replayed.",
  models=[dict(module="RangesMC", consts=dict(MaxN=4, MaxDeg=2), consts_thorough=dict(MaxN=6, MaxDeg=2), invs=["Inside", "Prefix", "Exact"], props=["Terminates"])],
  gens=[graphgen("small", MaxN=4, MaxM=3, Weights="{4}", cap=450, cap_thorough=6000)],
  units=[dict(name="ranges", src="c09.cpp", spec="RangesTrace", cases="small", count=60, count_thorough=900, parts=3, args=dict(big=8), args_thorough=dict(big=60), tlc_workers=2)])

check("C10",
  note="The splitting arithmetic of all ranges model-checked for every length, cutoff and split order in bounds; split histories (TLC-enumerated) replayed and random trees driven on every real range, and the parallel helpers run with 1 to 8 threads, TLC checking that pieces and visits are exactly the elements. Reductions are associative and commutative with an identity as initial value. Bounded by inputs replayed.",
  models=[dict(module="SplitMC", consts=dict(MaxLen=9, MaxCut=4, Depth=7, Kinds='{"half","right","cyclic"}', Gen="FALSE"), consts_thorough=dict(MaxLen=17, MaxCut=8, Depth=9, Kinds='{"half","right","cyclic"}', Gen="FALSE"),
               invs=["Stops", "Sizes", "Exactly", "Progress", "Bounded"], view="View", workers=4)],
  gens=[dict(name="splits", module="SplitMC", consts=dict(MaxLen=7, MaxCut=3, Depth=4, Kinds='{"half","cyclic"}', Gen="TRUE"), consts_thorough=dict(MaxLen=9, MaxCut=4, Depth=6, Kinds='{"half","cyclic"}', Gen="TRUE"), invs=["Emit"], cap=250, cap_thorough=4000)],
  units=[dict(name="ranges", src="c10.cpp", spec="SplitTrace", cases="splits", count=40, count_thorough=600, parts=2, args=dict(big=3), args_thorough=dict(big=30), tlc_workers=3),
         sched("ranges", "c10.cpp", "SplitTrace", parts=2, whole=True, count=150)])

check("C11",
  note="The work-list algorithms behind the ranges model-checked for every small graph, seed and neighbor order; on every small graph (TLC-enumerated) and random ones of five storage types all traversal ranges are run and every sequence validated by TLC against levels computed by the specification. Depth-first ranges: C28. Bounded by inputs replayed.",
  models=[dict(module="BfsRangeMC", consts=dict(N=3, Loops="TRUE"), consts_thorough=dict(N=4, Loops="FALSE"), invs=["Sound", "Complete"], props=["Terminates"], workers=4)],
  gens=[graphgen("small", MaxN=4, MaxM=3, Weights="{4,6}", cap=500, cap_thorough=8000)],
  units=[dict(name="ranges", src="c11.cpp", spec="TraverseTrace", cases="small", count=70, count_thorough=1200, parts=2, args=dict(big=8), args_thorough=dict(big=60), tlc_workers=2)])

_bfs = ["Sound", "Complete", "Synchronous"]
check("C12",
  note="Direction-optimizing search model-checked at the level of its shared-memory steps for every small graph, root, interleaving and choice of direction. On every small graph (TLC-enumerated), random and large ones, every variant runs with 1 to 8 threads and random bins, alpha, beta; TLC checks the parents against levels computed by the specification.",
  models=[dict(module="BfsMC", consts=dict(N=3, Loops="FALSE", Cas="TRUE", Stale="FALSE"), consts_thorough=dict(N=4, Loops="FALSE", Cas="TRUE", Stale="FALSE"), invs=_bfs, props=["Terminates"], workers=4, timeout=800),
          dict(module="BfsMC", consts=dict(N=3, Loops="FALSE", Cas="FALSE", Stale="TRUE"), consts_thorough=dict(N=3, Loops="TRUE", Cas="FALSE", Stale="TRUE"), invs=_bfs, props=["Terminates"], workers=4)],
  gens=[graphgen("small", MinN=1, MaxN=4, MaxM=3, Weights="{1}", cap=400, cap_thorough=8000)],
  units=[dict(name="bfs", src="c12.cpp", spec="BfsTrace", cases="small", count=60, count_thorough=1200, parts=2, args=dict(big=3), args_thorough=dict(big=12), tlc_workers=2),
         sched("bfs", "c12.cpp", "BfsTrace", parts=2)])

_delta = ["UpperBound", "NoneBehind", "Done", "Certificate"]
check("C13",
  note="Parallel delta-stepping model-checked at the level of its shared-memory steps (reads, compare-and-swap, bin insertion) for every small weighted graph and bucket width; the optimality certificate used for conformance is model-checked against the definition. On every small graph (TLC-enumerated), random and large ones all variants run with integral and floating distances and 1 to 8 threads; TLC checks the certificate. v6 and v8 are claimed sequentially only.",
  models=[dict(module="DeltaMC", consts=dict(N=3, WeightsOf="{1,3}", Deltas="{1,2,4}", MaxEdges=3), consts_thorough=dict(N=3, WeightsOf="{1,2,4}", Deltas="{1,2,5}", MaxEdges=5), invs=_delta, props=["Terminates"], workers=4)],
  gens=[graphgen("small", MinN=1, MaxN=4, MaxM=3, Weights="{1,3}", cap=400, cap_thorough=8000)],
  units=[dict(name="sssp", src="c13.cpp", spec="SsspTrace", cases="small", count=70, count_thorough=1200, parts=2, args=dict(big=3), args_thorough=dict(big=12), tlc_workers=2),
         sched("sssp", "c13.cpp", "SsspTrace", parts=2)])

check("C14",
  note="Afforest, Shiloach-Vishkin and label propagation model-checked at the level of their shared-memory steps (separate reads, plain writes, compare-and-swap, bitmap test-and-set) for every small graph, choice of sampled edges and skipped label. Every variant runs on every small graph (TLC-enumerated), random and large ones with 1 to 8 threads; TLC checks that labels are vertex ids equal exactly within components, and that the verifier accepts exactly correct labelings (also mutated ones). BFS-based, two-iteration and cyclic variants are not claimed.",
  models=[dict(module="AfforestMC", consts=dict(N=3, MaxEdges=3, Directed="TRUE"), consts_thorough=dict(N=3, MaxEdges=4, Directed="TRUE"), invs=["Sound", "Complete", "Compressed"], props=["Terminates"], workers=3),
          dict(module="AfforestMC", consts=dict(N=3, MaxEdges=4, Directed="FALSE"), consts_thorough=dict(N=3, MaxEdges=6, Directed="FALSE"), invs=["Sound", "Complete", "Compressed"], props=["Terminates"], workers=2),
          dict(module="SvMC", consts=dict(N=3, MaxEdges=4), consts_thorough=dict(N=4, MaxEdges=4), invs=["Sound", "Complete"], props=["Terminates"], workers=2),
          dict(module="LabelPropMC", consts=dict(N=3, MaxEdges=3), consts_thorough=dict(N=4, MaxEdges=3), invs=["Sound", "Once", "Complete"], props=["Terminates"], workers=2)],
  gens=[graphgen("small", MaxN=4, MaxM=3, Weights="{1}", cap=400, cap_thorough=8000)],
  units=[dict(name="cc", src="c14.cpp", spec="CcTrace", cases="small", count=80, count_thorough=1200, parts=2, args=dict(big=3), args_thorough=dict(big=12), tlc_workers=2),
         sched("cc", "c14.cpp", "CcTrace", parts=2)])

check("C16",
  note="Kruskal (edges in any order that agrees with the weights) and Prim (any lightest queue entry) are model-checked on every small weighted graph against the definition of an optimal spanning forest (all forests compared), and the certificate used on recorded results is shown to accept exactly the optimal ones. Both run on every small weighted graph (TLC-enumerated), random and large ones, with integer and floating, positive and negative weights, both comparisons, parallel edges, self-loops and several components; TLC judges forests, predecessors and the list left behind.",
  models=[dict(module="KruskalMC", consts=dict(N=3, MaxM=3, Weight="{1,2}"), consts_thorough=dict(N=4, MaxM=4, Weight="{1,2}"), invs=["Kruskal", "Greedy", "Prim", "Certificate"], workers=4)],
  gens=[graphgen("small", MinN=1, MaxN=4, MaxM=4, Weights="{1,2}", cap=500, cap_thorough=20000)],
  units=[dict(name="mst", src="c16.cpp", spec="MstTrace", cases="small", count=150, count_thorough=3000, parts=2, args=dict(big=5), args_thorough=dict(big=20), tlc_workers=2)])

check("C17",
  note="The greedy scan and the DAG-driven algorithm (vertices served in any order once their predecessors are done) are model-checked on every loop-free graph with up to 4 (5) vertices in symmetric and triangular storage, with step invariants. Both run on every small graph (TLC-enumerated), random and large ones, in several storages and with arbitrary prior content of the output; TLC judges independence and maximality.",
  models=[dict(module="MisMC", consts=dict(N=4), consts_thorough=dict(N=5), invs=["GreedyInv", "DagInv", "Served", "Result"], workers=4)],
  gens=[graphgen("small", MinN=1, MaxN=5, MaxM=6, Weights="{1}", Simple="TRUE", Loops="FALSE", Half="TRUE", cap=800, cap_thorough=20000)],
  units=[dict(name="mis", src="c17.cpp", spec="IndepTrace", cases="small", count=400, count_thorough=10000, args=dict(big=6, what=1), args_thorough=dict(big=40, what=1), tlc_workers=2)])

check("C18",
  note="The colouring algorithm, with any maximal independent set to start from and any order of the remaining vertices, is model-checked on every loop-free graph with up to 4 (5) vertices, with a step invariant. The implementation runs on every small graph (TLC-enumerated), random and large ones, with arbitrary prior colours; TLC judges every edge. jones_plassmann_coloring2 (documented as unfinished) is not claimed.",
  models=[dict(module="ColorMC", consts=dict(N=4), consts_thorough=dict(N=5), invs=["Good", "SoFar", "Few"], workers=4)],
  gens=[graphgen("small", MinN=1, MaxN=5, MaxM=6, Weights="{1}", Simple="TRUE", Loops="FALSE", Half="TRUE", cap=800, cap_thorough=20000)],
  units=[dict(name="colour", src="c17.cpp", spec="IndepTrace", cases="small", count=400, count_thorough=10000, args=dict(big=6, what=2), args_thorough=dict(big=40, what=2), tlc_workers=2)])

check("C19",
  note="The parallel computation of one source's dependencies is model-checked at the level of its shared-memory steps (level reads, path-count additions, edge marks, compare-and-swap of levels, level-by-level accumulation) for every small graph, with parallel edges, against the definition by explicit shortest paths in exact fractions. On every small graph (TLC-enumerated), random and large ones the sequential and parallel algorithms run with float and double scores, several policies, bins and 1 to 8 threads; TLC computes the dependencies in fixed-point arithmetic with an error bound and checks plain and normalized scores and the verifier's verdict on correct and mutated scores. Path counts are floating (integer path counts divide as integers), scores of the parallel algorithm float, graphs have an edge. The experimental variants run alike, the worklist ones on graphs without parallel edges.",
  models=[dict(module="BrandesMC", consts=dict(N=4, MaxEdges=4, Parallel="FALSE", K=12), consts_thorough=dict(N=4, MaxEdges=5, Parallel="FALSE", K=12), invs=["OnceQueued", "Counted", "Correct"], props=["Terminates"], workers=4),
          dict(module="BrandesMC", consts=dict(N=3, MaxEdges=2, Parallel="TRUE", K=24), consts_thorough=dict(N=3, MaxEdges=4, Parallel="TRUE", K=48), invs=["OnceQueued", "Counted", "Correct"], props=["Terminates"], workers=2)],
  gens=[graphgen("small", MinN=1, MaxN=4, MaxM=4, Weights="{1}", Loops="FALSE", cap=400, cap_thorough=8000)],
  units=[dict(name="bc", src="c19.cpp", spec="BcTrace", cases="small", count=80, count_thorough=1500, parts=2, args=dict(big=4), args_thorough=dict(big=16), tlc_workers=2),
         sched("bc", "c19.cpp", "BcTrace", parts=2)])

check("C15",
  note="The division of the work (cycles, blocks of rows, blocks of edges rounded to rows), the merge loop and the two ways of intersecting are model-checked on every triangular graph with up to 4 (5) vertices against the definition (pairwise adjacent triples), for every order in which the workers add their parts. Every counting algorithm runs on every small graph (TLC-enumerated), random and large ones in upper and, where the algorithm admits it, lower orientation, with 1 to 9 workers and several policies; TLC counts the triangles. Intersection sizes: all overloads on random sorted sequences, also with repetitions. triangle_count_vc is not claimed.",
  models=[dict(module="TrianglesMC", consts=dict(N=4, Workers=3), consts_thorough=dict(N=5, Workers=4), invs=["Exact"], workers=4)],
  gens=[graphgen("small", MinN=1, MaxN=5, MaxM=6, Weights="{1}", Simple="TRUE", Loops="FALSE", Half="TRUE", cap=500, cap_thorough=20000)],
  units=[dict(name="tc", src="c15.cpp", spec="TcTrace", cases="small", count=120, count_thorough=2000, parts=2, args=dict(big=4), args_thorough=dict(big=16), tlc_workers=2),
         sched("tc", "c15.cpp", "TcTrace", parts=2)])

check("C20",
  note="The sweep of page_rank, with every vertex adding up its in-neighbors' contributions one at a time while others publish theirs (and the variant that recomputes contributions between sweeps), is model-checked in exact fixed-point arithmetic on every small multigraph: whenever the moves of a sweep stay below the tolerance, the scores pass the certificate used on recorded results; every schedule ends. page_rank and nine experimental variants run on every small graph (TLC-enumerated), random and large ones with several damping factors and tolerances, float and double; TLC evaluates the fixpoint equation in fixed point (1/5e7) up to tolerance and rounding. v3, v12 and v13 (different formulas) are not claimed.",
  models=[dict(module="PageRankMC", consts=dict(N=3, MaxIn=2, S=300, P=1, Q=2, Thr=30, Overlap=2), consts_thorough=dict(N=3, MaxIn=2, S=3000, P=1, Q=2, Thr=60, Overlap=2), invs=["Fixpoint", "Nonneg"], workers=4),
          dict(module="PageRankMC", consts=dict(N=2, MaxIn=2, S=1000, P=1, Q=2, Thr=20, Overlap=2), consts_thorough=dict(N=2, MaxIn=3, S=3000, P=3, Q=4, Thr=60, Overlap=2), invs=["Fixpoint", "Nonneg"], props=["Stops"], workers=2)],
  gens=[graphgen("small", MinN=1, MaxN=4, MaxM=3, Weights="{1}", cap=300, cap_thorough=8000)],
  units=[dict(name="pagerank", src="c20.cpp", spec="PageRankTrace", cases="small", count=250, count_thorough=5000, parts=2, args=dict(big=3), args_thorough=dict(big=12), tlc_workers=2),
         sched("pagerank", "c20.cpp", "PageRankTrace", parts=2)])

check("C21",
  note="Both product algorithms (accumulating partial products in a table row by row; merging rows of one matrix with rows of the other transposed) are model-checked step by step on every pair of 2x2 matrices with absent, zero and other entries against the definition, together with the operators that judge recorded products. The implementation runs on pairs of TLC-enumerated matrices and on random rectangular, empty, unsorted and repeated-entry matrices, with integer, floating and mixed values and three semirings; TLC computes the product. Intersection of sorted sequences with repetitions too. There is no union helper; only square storage of the left operand (rows >= columns) where the type requires it.",
  models=[dict(module="SparseMC", consts=dict(N=2, Vals="{0,2}"), consts_thorough=dict(N=2, Vals="{-1,0,1,2}"), invs=["Result", "RowsDone", "Judge"], workers=4)],
  gens=[graphgen("small", MinN=1, MaxN=3, MaxM=3, Weights="{1}", Simple="TRUE", cap=500, cap_thorough=8000)],
  units=[dict(name="product", src="c21.cpp", spec="SparseTrace", cases="small", count=600, count_thorough=20000, parts=2, tlc_workers=2)])

check("C22",
  note="The rating loop (merging sorted neighbor lists, deriving the size of the union from the degrees) is model-checked on every simple graph with up to 4 (5) vertices. jaccard_similarity runs on every small graph (TLC-enumerated), random and large ones, float and double, in either attribute column; TLC computes the ratio of every edge (compared in millionths), the number of edges rated, and that nothing else changes.",
  models=[dict(module="JaccardMC", consts=dict(N=4), consts_thorough=dict(N=5), invs=["Exact", "All"], workers=4)],
  gens=[graphgen("small", MinN=1, MaxN=5, MaxM=8, Weights="{1}", Simple="TRUE", Loops="FALSE", Half="TRUE", cap=800, cap_thorough=20000)],
  units=[dict(name="jaccard", src="c22.cpp", spec="SparseTrace", cases="small", count=400, count_thorough=10000, args=dict(big=3), args_thorough=dict(big=20), tlc_workers=2)])

check("C23",
  note="The parent/rank forest of the pair version and the signed array of the class (by size, by height), with their different path compressions, are model-checked for every history over 4 (5) elements: they represent the abstract partition, ranks rise along parents, sizes are exact. All short histories up to a cap, simulated long ones and random ones are replayed into the pair functions and disjoint_set<int/long>; TLC follows the abstract partition and checks representatives, return values, sets, sizes, labels and counts after every call. Splicing, join, directJoin, reset of one element and the argument-free compact labels are not claimed.",
  models=[dict(module="UnionFindMC", consts=dict(N=4, Depth=8, Mode='"%s"' % m, Gen="FALSE"), consts_thorough=dict(N=5, Depth=9, Mode='"%s"' % m, Gen="FALSE"), invs=["Forest", "Represents", "Sizes", "Tells"], view="View", workers=2) for m in ("rank", "size", "height")],
  gens=[dict(name="short", module="UnionFindMC", consts=dict(N=3, Depth=3, Mode='"size"', Gen="TRUE"), invs=["Emit"], cap=2500, cap_thorough=40000),
        dict(name="long", module="UnionFindMC", consts=dict(N=8, Depth=25, Mode='"size"', Gen="TRUE"), invs=["Emit"], simulate=(30, 26), simulate_thorough=(600, 26))],
  units=[dict(name="uf-short", src="c23.cpp", spec="UnionFindTrace", cases="short", count=0, tlc_workers=2),
         dict(name="uf-long", src="c23.cpp", spec="UnionFindTrace", cases="long", count=300, count_thorough=10000, tlc_workers=2)])

check("C24",
  note="The wrappers (floating fetch-add as a compare-and-swap loop with a separate first load) are model-checked for all programs of 2-3 threads: every history is linearizable; the interval condition used on recorded bit histories agrees with linearizability for every history, also with arbitrary results. Iteration over set bits, whole and split at word boundaries in any way, is model-checked on every small content. All short histories on vectors (TLC-enumerated) and random long ones with four word types and lengths around word boundaries are replayed, TLC following the set of positions; recorded histories of real threads (interval-stamped) are checked by TLC for linearizability, and heavy contention runs for lost or doubled updates. Schedules of real threads are sampled, not enumerated.",
  models=[dict(module="AtomicMC", consts=dict(Threads=3, Len1=1, Mode='"var"', Guess="FALSE"), consts_thorough=dict(Threads=2, Len1=2, Mode='"var"', Guess="FALSE"), invs=["LinVar", "Adds"], props=["Ends"], workers=4),
          dict(module="AtomicMC", consts=dict(Threads=2, Len1=2, Mode='"bit"', Guess="TRUE"), consts_thorough=dict(Threads=3, Len1=1, Mode='"bit"', Guess="TRUE"), invs=["Agree"], workers=4),
          dict(module="AtomicMC", consts=dict(Threads=3, Len1=1, Mode='"bit"', Guess="FALSE"), consts_thorough=dict(Threads=2, Len1=3, Mode='"bit"', Guess="FALSE"), invs=["LinBit", "Agree"], workers=4),
          dict(module="BitVecMC", consts=dict(W=3, MaxWords=3, Cutoff=1, N=3, Depth=3, Gen="FALSE"), consts_thorough=dict(W=4, MaxWords=3, Cutoff=1, N=3, Depth=3, Gen="FALSE"), invs=["Exact", "Covers"], props=["Ends"], workers=4)],
  gens=[dict(name="short", module="BitVecMC", consts=dict(W=3, MaxWords=1, Cutoff=1, N=2, Depth=3, Gen="TRUE"), consts_thorough=dict(W=3, MaxWords=1, Cutoff=1, N=2, Depth=4, Gen="TRUE"), invs=["Emit"], cap=500, cap_thorough=7000),
        dict(name="long", module="BitVecMC", consts=dict(W=3, MaxWords=1, Cutoff=1, N=20, Depth=25, Gen="TRUE"), invs=["Emit"], simulate=(30, 27), simulate_thorough=(600, 27))],
  units=[dict(name="atomic", src="c24.cpp", spec="AtomicTrace", cases="short", count=160, count_thorough=4000, args=dict(histories=150), args_thorough=dict(histories=3000), tlc_workers=2),
         dict(name="atomic-fast", src="c24.cpp", spec="AtomicTrace", cases="long", count=160, count_thorough=4000, flavour="opt", tlc_workers=2),
         sched("atomic", "c24.cpp", "AtomicTrace", count=100, histories=300)])

check("C26",
  note="Peeling with degree counters and the table of removed edges, waiting vertices served in any order, is model-checked on every simple graph with up to 4 (5) vertices and every k against the definition (the largest set in which everybody has k neighbors inside). k_core runs on every small graph (TLC-enumerated), random and large ones with small, boundary and negative k; TLC computes the core and the removed edges.",
  models=[dict(module="KCoreMC", consts=dict(N=4, MaxK=4), consts_thorough=dict(N=5, MaxK=5), invs=["Sound", "Counts", "Result"], workers=4)],
  gens=[graphgen("small", MinN=1, MaxN=5, MaxM=8, Weights="{1}", Simple="TRUE", Loops="FALSE", Half="TRUE", cap=800, cap_thorough=20000)],
  units=[dict(name="kcore", src="c26.cpp", spec="KCoreTrace", cases="small", count=400, count_thorough=10000, args=dict(big=3), args_thorough=dict(big=20), tlc_workers=2)])

check("C27",
  note="Traversals of a shared list (take an item, work on it and push more, take the next) are model-checked for all interleavings of 2 (3) threads and for one thread with levels: every item is served exactly once, in order within a level for one thread, and every traversal ends. All short histories of pushes and takes (TLC-enumerated) and random long ones are replayed on the three work lists with several item types, TLC following the list; several threads traverse the concurrent lists, pushing while they do, freely and under enumerated schedules, and TLC compares the served with the pushed items.",
  models=[dict(module="WorklistMC", consts=dict(Threads=2, Items=3, Levels=1, GlobalEnd="FALSE"), consts_thorough=dict(Threads=3, Items=4, Levels=1, GlobalEnd="FALSE"), invs=["Once", "None_lost"], props=["Terminates"], workers=4),
          dict(module="WorklistMC", consts=dict(Threads=1, Items=4, Levels=2, GlobalEnd="FALSE"), consts_thorough=dict(Threads=1, Items=5, Levels=2, GlobalEnd="FALSE"), invs=["Once", "None_lost", "Ordered"], props=["Terminates"], workers=4)],
  gens=[dict(name="short", module="WorklistGen", consts=dict(Levels=1, Depth=6), consts_thorough=dict(Levels=2, Depth=7), invs=["Emit"], cap=1200, cap_thorough=16384)],
  units=[dict(name="worklist", src="c27.cpp", spec="WorklistTrace", cases="short", count=400, count_thorough=8000, tlc_workers=2),
         sched("worklist", "c27.cpp", "WorklistTrace", count=40, count_thorough=400)])

check("C28",
  note="The stack algorithms behind the ranges are model-checked on every graph with 3 (4) vertices, every neighbor order and seed: the order equals that of the recursive definition, every vertex comes once, targets before sources on acyclic graphs, and the edges form a tree of the reachable vertices. On every small graph (TLC-enumerated), random ones and stars and paths of 256 or more vertices, in five storages, the ranges run and TLC follows the search element by element. The edge range of new_dfs_range.hpp is out of scope (DESIGN.md).",
  models=[dict(module="DfsMC", consts=dict(N=3, Loops="FALSE", Edges="FALSE"), consts_thorough=dict(N=4, Loops="FALSE", Edges="FALSE"), invs=["Order", "Complete", "Useful"], props=["Terminates"], workers=4),
          dict(module="DfsMC", consts=dict(N=3, Loops="TRUE", Edges="TRUE"), consts_thorough=dict(N=4, Loops="FALSE", Edges="TRUE"), invs=["Order", "Complete", "Useful"], props=["Terminates"], workers=4)],
  gens=[graphgen("small", MaxN=4, MaxM=4, Weights="{5}", cap=900, cap_thorough=12000)],
  units=[dict(name="dfs", src="c28.cpp", spec="DfsTrace", cases="small", count=200, count_thorough=4000, parts=2, args=dict(big=2), tlc_workers=2)])

check("C29",
  note="What the drivers do to a graph before they count (any relabeling, either direction, sorting, removal of repetitions and loops; triangles edge by edge; components) is model-checked on every small file, and so are concurrent counting of incoming edges and drawing of sources, which ends under fair drawing. tc, cc, bfs, sssp, pr, bc, sources and process_edge_list run in process with generated option combinations on every small file (TLC-enumerated) and random ones; TLC decides the printed triangle counts, component sizes and ranks, the sources used, the rows of the tables and logs, and that nothing is complained about; the shared functions (loading text and binary files, sources, degrees, statistics of times) are driven alone, degree counting also under enumerated schedules. Timings themselves, js, imdb and apb programs, log files (only logs to standard output), bc --verify for versions 1 and 7 (which leave the source out of the scores) and versions known to need particular options are not covered.",
  models=[dict(module="BenchMC", consts=dict(N=3, M=3, Mode='"clean"'), invs=["Triangles_", "Simple_", "Components_"], props=["Terminates"], workers=4),
          dict(module="BenchMC", consts=dict(N=3, M=2, Mode='"sources"'), consts_thorough=dict(N=3, M=3, Mode='"sources"'), invs=["Degrees_", "Sources_"], props=["Terminates"], workers=4)],
  gens=[graphgen("small", MinN=1, MaxN=3, MaxM=3, Weights="{4}", cap=120, cap_thorough=3000)],
  units=[dict(name="bench", src="c29.cpp", spec="BenchTrace", cases="small", count=120, count_thorough=3000, parts=8, inc=["bench"], flags=["-U_GLIBCXX_ASSERTIONS", "-I/usr/include/docopt"], libs=["-ldocopt", "-ltbb", "-lpthread"],
              args=dict(big=2), args_thorough=dict(big=8), tlc_workers=2),
         dict(sched("bench", "c29.cpp", "BenchTrace"), inc=["bench"], flags=["-DPART=0"])])
