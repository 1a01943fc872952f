------------------------------- MODULE DfsMC -------------------------------
(* The stack algorithms behind the depth-first ranges on every small graph:   *)
(* a vertex is pushed when it is entered and again whenever one of its       *)
(* neighbors is entered from it; a vertex is yielded when it is finished, or *)
(* (Edges) an edge when it is about to be followed.                          *)
EXTENDS Dfs, TLC
CONSTANTS N, Loops, Edges
VARIABLES A, seed, stack, color, v, pos, out, cursor, at
vars == <<A, seed, stack, color, v, pos, out, cursor, at>>
V == 0..(N - 1)
Rows == IF N <= 3 THEN UNION {[1..k -> V] : k \in 0..2} \cup {SetToSortSeq(V, <)} ELSE {SetToSortSeq(S, <) : S \in SUBSET V}
Row(x) == A[x + 1]
Init == /\ A \in [1..N -> Rows] /\ (Loops \/ \A x \in V : x \notin Rng(Row(x))) /\ seed \in V
        /\ stack = <<seed>> /\ color = [x \in V |-> IF x = seed THEN "grey" ELSE "white"] /\ v = seed /\ pos = 1
        /\ out = <<>> /\ cursor = 0 /\ at = "scan"
Done == pos > Len(Row(v))
White == ~Done /\ color[Row(v)[pos]] = "white"
Skip == at = "scan" /\ ~Done /\ ~White /\ pos' = pos + 1 /\ UNCHANGED <<A, seed, stack, color, v, out, cursor, at>>
(* vertices *)
EnterV == /\ ~Edges /\ at = "scan" /\ White
          /\ stack' = Append(stack, v) /\ color' = [color EXCEPT ![v] = "grey"] /\ v' = Row(v)[pos] /\ pos' = 1
          /\ UNCHANGED <<A, seed, out, cursor, at>>
Yield == /\ ~Edges /\ at = "scan" /\ Done
         /\ stack' = Append(stack, v) /\ color' = [color EXCEPT ![v] = "black"] /\ out' = Append(out, v) /\ at' = "next"
         /\ UNCHANGED <<A, seed, v, pos, cursor>>
Pop == ~Edges /\ at = "next" /\ stack # <<>> /\ color[Last(stack)] = "black" /\ stack' = Front(stack) /\ UNCHANGED <<A, seed, color, v, pos, out, cursor, at>>
Again == ~Edges /\ at = "next" /\ stack # <<>> /\ color[Last(stack)] # "black" /\ v' = Last(stack) /\ pos' = 1 /\ at' = "scan" /\ UNCHANGED <<A, seed, stack, color, out, cursor>>
Root == ~Edges /\ at = "next" /\ stack = <<>> /\
        LET k == SetMin({x \in cursor..N : IF x = N THEN TRUE ELSE color[x] = "white"}) IN
        cursor' = k /\ (IF k = N THEN at' = "end" /\ UNCHANGED <<stack, color, v, pos>>
                        ELSE stack' = <<k>> /\ color' = [color EXCEPT ![k] = "grey"] /\ v' = k /\ pos' = 1 /\ at' = "scan")
        /\ UNCHANGED <<A, seed, out>>
(* edges *)
Follow == /\ Edges /\ at = "scan" /\ White
          /\ out' = Append(out, <<v, pos>>) /\ stack' = Append(stack, v)
          /\ color' = [color EXCEPT ![v] = "grey", ![Row(v)[pos]] = "grey"] /\ v' = Row(v)[pos] /\ pos' = 1
          /\ UNCHANGED <<A, seed, cursor, at>>
Back == /\ Edges /\ at = "scan" /\ Done
        /\ color' = [color EXCEPT ![v] = "black"] /\ v' = Last(stack) /\ stack' = Front(stack) /\ pos' = 1
        /\ at' = IF Len(stack) = 1 THEN "end" ELSE "scan"
        /\ UNCHANGED <<A, seed, out, cursor>>
Next == Skip \/ EnterV \/ Yield \/ Pop \/ Again \/ Root \/ Follow \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* the definition, by recursion over the exploration *)
RECURSIVE Fin(_, _), Tree(_, _)
Fin(d, o) == IF d.path = <<>> /\ Unmet(A, d) = {} THEN o ELSE LET f == Finishing(A, d) IN Fin(Leave(f), Append(o, Last(f.path)))
Tree(d, o) == LET u == Up(A, d) IN IF u.path = <<>> THEN o ELSE LET x == Last(u.path)  j == NextPos(A, x, u.met) IN Tree(Enter(u, A[x + 1][j]), Append(o, <<x, j>>))
IsPrefixOf(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
Want == IF Edges THEN Tree(Open(seed), <<>>) ELSE Fin(Open(seed), <<>>)
Order == out = <<>> \/ IsPrefixOf(out, Want)
Complete == at = "end" => out = Want
Reach[k \in 0..N] == IF k = 0 THEN {seed} ELSE Reach[k - 1] \cup UNION {Rng(Row(x)) : x \in Reach[k - 1]}
(* what a user relies on: every vertex once, on acyclic graphs targets before sources; a tree of the reachable vertices *)
RECURSIVE Plus(_, _)
Plus(S, k) == IF k = 0 THEN S ELSE Plus(S \cup UNION {Rng(Row(x)) : x \in S}, k - 1)
Acyclic == \A x \in V : x \notin Plus(Rng(Row(x)), N)
Place(x) == CHOOSE j \in 1..Len(out) : out[j] = x
Useful == at = "end" =>
  IF Edges THEN /\ {Row(out[j][1])[out[j][2]] : j \in 1..Len(out)} = Reach[N] \ {seed} /\ Len(out) = Cardinality(Reach[N]) - 1
                /\ \A j \in 1..Len(out) : out[j][1] = seed \/ \E k \in 1..(j - 1) : Row(out[k][1])[out[k][2]] = out[j][1]
  ELSE IsPerm(out, N) /\ (Acyclic => \A x \in V : \A y \in Rng(Row(x)) : Place(y) < Place(x))
Terminates == <>(at = "end")
=============================================================================
