------------------------------ MODULE DfsTrace ------------------------------
(* Conformance of the depth-first ranges, one step of the search per element. *)
EXTENDS TraceUtil, Dfs
Start(t) == [A |-> TLCEval([u \in 1..Len(t.rows) |-> Firsts(t.rows[u])]), d |-> [path |-> <<>>, met |-> {}]]
Why(t, s, ev) ==
  CASE ev.k = "begin" -> ""
    [] ev.k = "finish" -> FirstFail(<< <<"a vertex after the last", s.d.path # <<>> \/ Unmet(s.A, s.d) # {}>>,
                                       <<"the next finished vertex", (s.d.path # <<>> \/ Unmet(s.A, s.d) # {}) => Last(Finishing(s.A, s.d).path) = ev.v>> >>)
    [] ev.k = "tree" -> LET u == Up(s.A, s.d) IN
         FirstFail(<< <<"an edge after the last", u.path # <<>> >>,
                      <<"the next tree edge", u.path # <<>> => LET x == Last(u.path) IN ev.e = <<x>> \o t.rows[x + 1][NextPos(s.A, x, u.met)]>> >>)
    [] ev.k = "endv" -> FirstFail(<< <<"every vertex", s.d.path = <<>> /\ Unmet(s.A, s.d) = {}>> >>)
    [] ev.k = "ende" -> FirstFail(<< <<"every tree edge", Up(s.A, s.d).path = <<>> >> >>)
Post(t, s, ev) ==
  CASE ev.k = "begin" -> [s EXCEPT !.d = Open(ev.seed)]
    [] ev.k = "finish" -> [s EXCEPT !.d = TLCEval(Leave(Finishing(s.A, s.d)))]
    [] ev.k = "tree" -> [s EXCEPT !.d = LET u == Up(s.A, s.d) IN TLCEval(Enter(u, ev.e[2]))]
    [] OTHER -> s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
