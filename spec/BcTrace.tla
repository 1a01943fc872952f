------------------------------- MODULE BcTrace -------------------------------
(* Conformance of betweenness centrality.  Scores are in units of 1/unit,    *)
(* rounded; expected scores carry a bound on the rounding of the expected    *)
(* value, to which some relative error of the floating-point sum is added.   *)
EXTENDS TraceUtil, Brandes
Abs(x) == IF x < 0 THEN -x ELSE x
Start(t) == LET R == Targets(t.rows)  I == Incoming(R)  Src == UNION {Rng(t.ev[j].src) : j \in 1..Len(t.ev)} IN
            [n |-> Len(t.rows), unit |-> t.unit, dep |-> TLCEval([s \in Src |-> Dependencies(R, I, s, t.unit)])]
(* sum over the sources, with or without the source itself *)
RECURSIVE Total(_, _, _, _, _, _)
Total(dep, src, v, own, x, j) == IF j = 0 THEN 0 ELSE (IF src[j] = v /\ ~own THEN 0 ELSE dep[src[j]][v][x]) + Total(dep, src, v, own, x, j - 1)
Expected(s, src, own) == TLCEval([v \in 0..(s.n - 1) |-> <<Total(s.dep, src, v, own, 1, Len(src)), Total(s.dep, src, v, own, 2, Len(src))>>])
Tol(e) == e[2] + e[1] \div 20000 + 2
RECURSIVE Scale(_, _, _, _)
(* a * 10^k / c rounded down, for a <= c *)
Scale(a, c, q, k) == IF k = 0 THEN q ELSE Scale((a * 10) % c, c, q * 10 + (a * 10) \div c, k - 1)
Judge(s, E, norm, r) ==
  LET M == SetMax({E[v][1] : v \in DOMAIN E})
      X == SetMax({E[v][2] : v \in DOMAIN E}) IN
  IF Len(r) # s.n THEN "number of scores"
  ELSE IF ~norm THEN (IF \E v \in DOMAIN E : Abs(r[v + 1] - E[v][1]) > Tol(E[v]) THEN "score" ELSE "")
  ELSE IF M = 0 THEN ""
  ELSE LET slack == 3 + (IF X = 0 THEN 0 ELSE Scale(MinOf(2 * X, M), M, 0, 4)) IN
       IF \E v \in DOMAIN E : Abs(r[v + 1] - Scale(E[v][1], M, 0, 4)) > slack THEN "score in proportion to the largest" ELSE ""
Why(t, s, ev) ==
  CASE ev.k = "bc" ->
         LET E == Expected(s, ev.src, ev.own)  bad == {j \in 1..Len(ev.res) : Judge(s, E, ev.norm, ev.res[j].s) # ""} IN
         IF bad = {} THEN "" ELSE LET j == SetMin(bad) IN ev.res[j].k \o ": " \o Judge(s, E, ev.norm, ev.res[j].s)
    [] ev.k = "verify" -> IF ev.ok = (Judge(s, Expected(s, ev.src, TRUE), ev.norm, ev.s) = "") THEN "" ELSE "the verifier accepts exactly the correct scores"
Post(t, s, ev) == s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
