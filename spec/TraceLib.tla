------------------------------ MODULE TraceLib ------------------------------
(* Common definitions of the trace specifications: the recorded trace, and acceptance. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* sequence (as recorded in JSON) to set
Range(s) == {s[i] : i \in DOMAIN s}

Abs(x) == IF x < 0 THEN -x ELSE x

\* every line of the trace has to be explained by a step of the specification
TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = Len(Trace)
  \/ /\ PrintT(<<"REJECTED", TLCGet("stats").diameter, Len(Trace)>>)
     /\ FALSE

\* evaluates to `c`, saying which comparison of an observation failed
Chk(name, c, ctx) == IF c THEN TRUE ELSE PrintT(<<"WHY", name, ToString(ctx)>>) /\ FALSE
=============================================================================
