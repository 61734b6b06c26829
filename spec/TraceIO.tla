------------------------------ MODULE TraceIO ------------------------------
(* Reads the trace recorded from the real code: one JSON object per line of the file named by the TRACE
   environment variable.  A trace specification EXTENDS this module, keeps its position in a variable l, and
   accepts when every line was consumed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
=============================================================================
