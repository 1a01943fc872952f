----------------------------- MODULE EdgeListMC -----------------------------
(* Bounded exploration of the edge-list machine, and the generator of the    *)
(* operation histories that are replayed into the implementation.            *)
EXTENDS EdgeList, TLC
CONSTANTS MaxV, Attr, MaxDecl, Depth, Gen

VARIABLES s, ghost, hist
vars == <<s, ghost, hist>>

Ids == 0..MaxV
Ops == [k: {"push", "pusht"}, u: Ids, v: Ids, a: {<<x>> : x \in Attr}, n: {0}]
       \cup [k: {"open", "close", "clear", "reserve", "copy", "assign", "move", "read"}, u: {0}, v: {0}, a: {<<0>>}, n: {0}]
       \cup [k: {"resize"}, u: {0}, v: {0}, a: {<<0>>}, n: 0..2]

Init == /\ \E kind \in {"uni", "bi"}: \E d0, d1 \in 0..MaxDecl:
             s = ELInit(kind, 1, IF kind = "uni" THEN <<d0>> ELSE <<d0, d1>>)
        /\ ghost = [app |-> <<>>, decl |-> s.card, low |-> FALSE]
        /\ hist = <<>>

Do(op) == /\ Len(hist) < Depth
          /\ ELPre(s, op)
          /\ s' = ELPost(s, op)
          /\ hist' = Append(hist, op)
          /\ ghost' = [ghost EXCEPT !.app = IF op.k \in {"push", "pusht"} THEN Append(@, <<op.u, op.v>> \o op.a) ELSE @,
                                    !.low = @ \/ op.k \in {"resize", "clear"}]
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
App == ghost.app
(* The property: content is the appended sequence; the vertex count is the larger of the
   declared one and one more than the largest endpoint ever appended. *)
Content == ~ghost.low => s.edges = App
Cardinal ==
  IF s.kind = "uni"
  THEN s.card[1] = MaxSet({ghost.decl[1]} \cup UNION {{App[j][1] + 1, App[j][2] + 1} : j \in 1..Len(App)})
  ELSE /\ s.card[1] = MaxSet({ghost.decl[1]} \cup {App[j][1] + 1 : j \in 1..Len(App)})
       /\ s.card[2] = MaxSet({ghost.decl[2]} \cup {App[j][2] + 1 : j \in 1..Len(App)})
Monotone == [][\A j \in 1..Len(s.card) : s.card[j] <= s'.card[j]]_vars
SizeOk == ELView(s).size = Len(s.edges) /\ ELView(s).m = ELView(s).size

Enc(op) == << (CASE op.k = "push" -> 1 [] op.k = "pusht" -> 2 [] op.k = "open" -> 3 [] op.k = "close" -> 4
                 [] op.k = "clear" -> 5 [] op.k = "reserve" -> 6 [] op.k = "copy" -> 7 [] op.k = "assign" -> 8
                 [] op.k = "move" -> 9 [] op.k = "read" -> 10 [] op.k = "resize" -> 11), op.u, op.v, op.a[1], op.n >>
Emit == (Gen /\ Len(hist) = Depth) =>
          PrintT(<<"BEHAVIOUR", <<IF s.kind = "uni" THEN 0 ELSE 1>> \o ghost.decl, [j \in 1..Len(hist) |-> Enc(hist[j])]>>)
(* without the history variable, for exhaustive checking *)
View == <<s, ghost>>
=============================================================================
