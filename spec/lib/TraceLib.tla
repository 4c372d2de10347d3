------------------------------ MODULE TraceLib ------------------------------
(* Reading a recorded ndjson trace (file name in the environment variable     *)
(* TRACE), and the acceptance condition of every trace specification: TLC      *)
(* has explained every line.  l is the next line to explain.                  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)

TraceAccepted ==
    LET d == TLCGet("stats").diameter - 1
    IN  IF d = TraceLen THEN TRUE
        ELSE Print(<<"STUCK", d, "of", TraceLen>>, FALSE)

Has(r, f) == f \in DOMAIN r
Range(s) == {s[i] : i \in DOMAIN s}
=============================================================================
