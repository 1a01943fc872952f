---------------------------- MODULE WorklistTrace ----------------------------
(* Conformance of the work lists. The state is the list of waiting items.     *)
EXTENDS TraceUtil, Worklist
Start(t) == [q |-> <<>>]
Set(s) == {s[j] : j \in 1..Len(s)}
Bag(s) == [x \in Set(s) |-> Cardinality({j \in 1..Len(s) : s[j] = x})]
Why(t, s, ev) ==
  CASE ev.k = "push" -> ""
    [] ev.k = "serve" -> FirstFail(<< <<"an item although none waits", s.q # <<>> >>,
                                      <<"not the first item of the lowest level", s.q # <<>> => ServedNext(s.q) = <<ev.x, ev.l>> >> >>)
    [] ev.k = "empty" -> FirstFail(<< <<"emptiness", ev.r = (s.q = <<>>)>> >>)
    [] ev.k = "end" -> FirstFail(<< <<"the traversal ended although items wait", s.q = <<>> >>, <<"emptiness", ev.empty>> >>)
    [] ev.k = "shared" -> FirstFail(<< <<"items not served exactly once", Bag(ev.served) = Bag(ev.pushed)>>, <<"emptiness", ev.empty>> >>)
Post(t, s, ev) ==
  CASE ev.k = "push" -> [q |-> Pushed(s.q, <<ev.x, ev.l>>)]
    [] ev.k = "serve" -> [q |-> Served(s.q)]
    [] OTHER -> s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
