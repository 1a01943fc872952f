---------------------------- MODULE SerialTrace ----------------------------
(* Conformance of serialize/deserialize: the content seen after every call   *)
(* is the one the specification prescribes.  "twin" events compare a loaded  *)
(* object with the original after the same further operations.               *)
EXTENDS TraceUtil, Serial
Start(t) == SerInit
Post(t, s, ev) == IF ev.k = "twin" THEN s ELSE SerPost(s, ev.k, ev.slot, ev.file, ev.content)
Why(t, s, ev) ==
  IF ev.k = "twin" THEN FirstFail(<< <<"same behaviour after loading", ev.a = ev.b>> >>)
  ELSE IF ~SerPre(s, ev.k, ev.slot, ev.file) THEN "harness called outside the precondition"
  ELSE IF ev.content = SerSees(s, ev.k, ev.slot, ev.file, ev.content) THEN "" ELSE "content differs from what was stored"
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
