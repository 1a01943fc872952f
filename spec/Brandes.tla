------------------------------ MODULE Brandes ------------------------------
(* Betweenness: dependencies of a source on the vertices, for graphs given   *)
(* by rows (sequences of neighbors, repeated for parallel edges).            *)
EXTENDS Paths, TLC
Targets(rows) == TLCEval([v \in 0..(Len(rows) - 1) |-> [j \in 1..Len(rows[v + 1]) |-> rows[v + 1][j][1]]])
(* by vertex, its incoming edges <<v, u, j>> *)
Incoming(R) == LET E == TLCEval(UNION {{<<R[u][j], u, j>> : j \in 1..Len(R[u])}   : u \in DOMAIN R}) IN
               TLCEval([v \in DOMAIN R |-> SetToSeq({e \in E : e[1] = v})])
RECURSIVE AddUp(_, _, _)
AddUp(S, f(_), j) == IF j = 0 THEN 0 ELSE f(S[j]) + AddUp(S, f, j - 1)
RECURSIVE SigmaFrom(_, _, _, _)
SigmaFrom(I, L, sig, d) ==
  IF \A v \in DOMAIN L : L[v] # d THEN sig
  ELSE SigmaFrom(I, L, TLCEval([v \in DOMAIN L |-> IF L[v] = d THEN AddUp(I[v], LAMBDA e : IF L[e[2]] = d - 1 THEN sig[e[2]] ELSE 0, Len(I[v])) ELSE sig[v]]), d + 1)
(* number of shortest paths from r: those to a vertex are those to its       *)
(* predecessors, one for every edge                                          *)
Sigma(I, L, r) == SigmaFrom(I, L, [v \in DOMAIN L |-> IF v = r THEN 1 ELSE 0], 1)
(* a * b / c rounded down, for b <= c *)
MulDiv(a, b, c) == (a \div c) * b + ((a % c) * b) \div c
MulRem(a, b, c) == ((a % c) * b) % c
(* dependencies in units of 1/S, <<value, bound of the rounding error>>:     *)
(* d[u] = sum over the edges to the next level of sigma[u]/sigma[v] (1+d[v]) *)
RECURSIVE DepFrom(_, _, _, _, _, _)
DepFrom(R, L, sig, S, D, d) ==
  IF d < 0 THEN D
  ELSE LET Val(u, v) == IF L[v] # d + 1 THEN 0 ELSE MulDiv(S + D[v][1], sig[u], sig[v])
           Err(u, v) == IF L[v] # d + 1 THEN 0
                        ELSE MulDiv(D[v][2], sig[u], sig[v]) + (IF MulRem(D[v][2], sig[u], sig[v]) # 0 THEN 1 ELSE 0) + (IF MulRem(S + D[v][1], sig[u], sig[v]) # 0 THEN 1 ELSE 0) IN
       DepFrom(R, L, sig, S, TLCEval([u \in DOMAIN L |-> IF L[u] # d THEN D[u] ELSE <<AddUp(R[u], LAMBDA v : Val(u, v), Len(R[u])), AddUp(R[u], LAMBDA v : Err(u, v), Len(R[u]))>>]), d - 1)
Dependencies(R, I, r, S) ==
  LET A == TLCEval([v \in DOMAIN R |-> {R[v][j] : j \in 1..Len(R[v])}])
      L == TLCEval(Levels(A, r))
      sig == TLCEval(Sigma(I, L, r)) IN
  DepFrom(R, L, sig, S, [v \in DOMAIN R |-> <<0, 0>>], SetMax({L[v] : v \in DOMAIN L}) - 1)
(* by definition: all shortest paths as sequences of edges <<u, j>> (edge j  *)
(* of row u)                                                                 *)
RECURSIVE PathsOf(_, _, _, _)
PathsOf(R, L, r, t) ==      \* shortest paths r to t: sequences of <<u, j>>
  IF t = r THEN {<<>>}
  ELSE IF L[t] = Inf THEN {}
  ELSE UNION {UNION {{Append(p, <<u, j>>) : j \in {k \in 1..Len(R[u]) : R[u][k] = t}} : p \in PathsOf(R, L, r, u)} : u \in {x \in DOMAIN R : L[x] = L[t] - 1 /\ L[x] # Inf}}
PassThrough(P, v) == {p \in P : \E j \in 1..Len(p) : p[j][1] = v}
(* K times the sum over targets t # v of the fraction of the shortest paths  *)
(* r to t that pass v, the start included                                    *)
RECURSIVE SumTargets(_, _, _, _, _, _)
SumTargets(R, L, r, v, K, T) ==
  IF T = {} THEN 0
  ELSE LET t == CHOOSE x \in T : TRUE  P == PathsOf(R, L, r, t) IN
       (IF P = {} \/ t = v THEN 0 ELSE (K * Cardinality(PassThrough(P, v))) \div Cardinality(P)) + SumTargets(R, L, r, v, K, T \ {t})
ByDefinition(R, L, r, v, K) == SumTargets(R, L, r, v, K, DOMAIN R \ {v})
=============================================================================
