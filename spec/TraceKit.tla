----------------------------- MODULE TraceKit -----------------------------
(* Recorded behaviours of the implementation, one JSON line each, and the   *)
(* verdict protocol: every line gets exactly one printed verdict, the empty *)
(* reason meaning that the behaviour is one of the specification's.         *)
EXTENDS TLC, Json, IOUtils, Naturals, Sequences, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TR_IN)
Verdict(c, why) == PrintT(<<"V", c, why>>)
\* first failing condition of a sequence of <<condition, reason>>
RECURSIVE Why(_)
Why(q) == IF q = <<>> THEN "" ELSE IF Head(q)[1] THEN Why(Tail(q)) ELSE Head(q)[2]
=============================================================================
