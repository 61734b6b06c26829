--------------------------- MODULE TraceThreads ---------------------------
(* The same calls, made by the real code with different numbers of OpenMP threads and in several runs: Threads.tla says that
   the schedule does not matter, so the first run (one thread) tells what all the others must log.
   cfg: the tiles and guard cells of the run; ref, run: the signatures of what each log holds, the number of threads. *)
EXTENDS TraceIO

VARIABLES l, ref
vars == <<l, ref>>
E == Trace[l]

Init == l = 1 /\ ref = <<>>
Cfg == E.ev = "cfg" /\ ref' = <<>>
Ref == E.ev = "ref" /\ E.nt = 1 /\ ref' = E.logs
Run == /\ E.ev = "run" /\ E.nt >= 1
       /\ DOMAIN E.logs = DOMAIN ref
       /\ \A t \in DOMAIN ref : E.logs[t] = ref[t]
       /\ UNCHANGED ref
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Cfg \/ Ref \/ Run)
Spec == Init /\ [][Next]_vars
=============================================================================
