--------------------------- MODULE EdgeListTrace ---------------------------
(* Conformance: every recorded history of the real edge list is a behaviour  *)
(* of EdgeList, observed in full after every call.                           *)
EXTENDS TraceUtil, EdgeList

Start(t) == ELInit(t.kind, t.na, t.decl)
Post(t, s, ev) ==
  CASE ev.k = "ctor" -> s
    [] ev.k = "init" -> ELGiven(t.kind, t.na, t.decl, ev.given)
    [] OTHER -> ELPost(s, ev)
Why(t, s, ev) ==
  IF ev.k \notin {"ctor", "init"} /\ ~ELPre(s, ev) THEN "harness called outside the precondition"
  ELSE LET p == Post(t, s, ev)  v == ELView(p)  o == ev.obs IN
       FirstFail(<< <<"edges", o.edges = v.edges>>, <<"const edges", o.cedges = v.edges>>,
                    <<"indexing", o.iedges = v.edges>>,
                    <<"size", o.size = v.size>>, <<"num_edges", o.m = v.m>>,
                    <<"num_edges(graph)", o.mcpo = v.m>>,
                    <<"num_vertices", ~p.open => o.nv = v.nv>>,
                    <<"num_vertices(graph)", ~p.open => o.nvcpo = v.nv[1]>>,
                    <<"num_vertices(graph, 1)", ~p.open /\ t.kind = "bi" => o.nv1 = v.nv[2]>>,
                    <<"source/target", o.st = [j \in 1..Len(v.edges) |-> <<v.edges[j][1], v.edges[j][2]>>]>> >>)
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
