----------------------------- MODULE TraceUtil -----------------------------
(* Helpers shared by the trace specifications.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
(* The recorded cases. *)
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
(* First failing clause of <<name, holds>> pairs; evaluated in order. *)
RECURSIVE FF(_, _)
FF(cl, j) == IF j > Len(cl) THEN "" ELSE IF cl[j][2] THEN FF(cl, j + 1) ELSE cl[j][1]
FirstFail(cl) == FF(cl, 1)
Has(r, f) == f \in DOMAIN r
Opt(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
=============================================================================
