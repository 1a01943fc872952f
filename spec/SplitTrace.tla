----------------------------- MODULE SplitTrace -----------------------------
(* Conformance of real ranges under splitting and of the parallel helpers.   *)
(* st: the records each current piece enumerates, with its size.             *)
EXTENDS TraceUtil, Split
Start(t) == [whole |-> <<>>, p |-> <<>>, size |-> <<>>]
Counted == {"vector", "neighbors", "cyclic", "cyclic neighbor", "vertex", "plain", "neighbor"}
Why(t, s, ev) ==
  CASE ev.k = "range" ->
         FirstFail(<< <<"elements of the range", ev.seq = ev.want>>,
                      <<"size", ev.what \in Counted => ev.size = Len(ev.seq)>>,
                      <<"empty", ev.empty = IF ev.what = "bits" THEN ev.size = 0 ELSE ev.seq = <<>> >> >>)
    [] ev.k = "split" ->
         FirstFail(<< <<"pieces visit every element exactly once, in order", Partitions(ev.a, ev.b, s.p[ev.i])>>,
                      <<"sizes of the pieces", /\ ev.sa + ev.sb = s.size[ev.i]
                                               /\ ev.what \in Counted => ev.sa = Len(ev.a) /\ ev.sb = Len(ev.b)>>,
                      <<"empty", (ev.ea => ev.a = <<>>) /\ (ev.eb => ev.b = <<>>) /\ (ev.what # "bits" => ev.ea = (ev.a = <<>>) /\ ev.eb = (ev.b = <<>>))>>,
                      <<"splitting makes progress", ev.what \notin {"cyclic", "cyclic neighbor"} => ev.sa < s.size[ev.i] /\ ev.sb < s.size[ev.i]>> >>)
    [] ev.k = "exhaust" -> FirstFail(<< <<"splitting ends", ev.ended>>, <<"pieces visit every element exactly once", SameBag(ev.seq, s.whole)>> >>)
    [] ev.k = "each" ->
         FirstFail(<< <<"operation applied exactly once per element", SameBag(ev.seq, s.whole)>>,
                      <<"in order", ev.seql => ev.seq = s.whole>> >>)
    [] ev.k = "reduce" ->
         FirstFail(<< <<"count", ev.count = Count(s.whole)>>, <<"sum", ev.sum = ev.init + Total(s.whole)>>, <<"maximum", ev.max = Largest(s.whole)>> >>)
    [] ev.k = "counting" -> FirstFail(<< <<"counting output iterator", ev.got = ev.n>> >>)
Post(t, s, ev) ==
  CASE ev.k = "range" -> [whole |-> ev.seq, p |-> <<ev.seq>>, size |-> <<ev.size>>]
    [] ev.k = "split" -> [s EXCEPT !.p = Append([@ EXCEPT ![ev.i] = ev.a], ev.b), !.size = Append([@ EXCEPT ![ev.i] = ev.sa], ev.sb)]
    [] OTHER -> s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
