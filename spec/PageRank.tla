------------------------------ MODULE PageRank ------------------------------
(* Damped fixpoint of the in-neighbor lists R (a sequence of rows of         *)
(* vertices), in fixed point: scores are multiples of 1/S, the damping       *)
(* factor is p/q.  deg[u] (1-based) is the number of out-edges of u - 1.     *)
EXTENDS Integers, Sequences, FiniteSets
OutDegrees(R) == [u \in 1..Len(R) |-> LET C(r) == Cardinality({j \in 1..Len(r) : r[j] = u - 1})
                                          f[v \in 0..Len(R)] == IF v = 0 THEN 0 ELSE f[v - 1] + C(R[v]) IN f[Len(R)]]
RECURSIVE SumRow(_, _, _, _)
SumRow(r, x, deg, j) == IF j = 0 THEN 0 ELSE x[r[j] + 1] \div deg[r[j] + 1] + SumRow(r, x, deg, j - 1)
Abs(a) == IF a < 0 THEN -a ELSE a
(* q times the distance of a score from what its in-neighbors say            *)
Off(R, deg, x, p, q, S, v) == Abs(q * x[v] - (((q - p) * S) \div Len(R) + p * SumRow(R[v], x, deg, Len(R[v]))))
RECURSIVE SumUp(_, _, _)
SumUp(f, j, top) == IF j = 0 THEN 0 ELSE LET r == SumUp(f, j - 1, top) IN IF r > top \/ f[j] > top THEN top + 1 ELSE r + f[j]
(* Error made by rounding scores to multiples of 1/S and dividing downwards  *)
Rounding(R, p, q, slack) == LET m == SumUp([v \in 1..Len(R) |-> Len(R[v])], Len(R), 10000000) IN Len(R) * (q + p + 1) + p * m + slack
(* thr: S times the tolerance.  An update moves every score once, from a mix *)
(* of the old and the new scores of the others; if all moves together are    *)
(* below the tolerance, the result is off by at most p/q of the tolerance.   *)
FixWhy(R, deg, x, p, q, S, thr, slack) ==
  LET b == p * thr + Rounding(R, p, q, slack) n == Len(R) IN
  CASE Len(x) # n -> "number of scores"
    [] \E v \in 1..n : x[v] < 0 \/ x[v] > S + S \div 10 -> "a score outside [0, 1]"
    [] SumUp([v \in 1..n |-> Off(R, deg, x, p, q, S, v)], n, b) > b -> "not the damped fixpoint up to the tolerance"
    [] (q - p) * (Abs(SumUp(x, n, 2 * S) - S) \div 100) > b \div 100 + q -> "scores do not sum to one"
    [] OTHER -> ""
=============================================================================
