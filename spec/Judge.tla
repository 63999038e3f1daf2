------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Skeleton shared by the trace-validation specifications: a trace is a    *)
(* file of JSON lines, each an observation recorded from the real code; a  *)
(* specification extending this module supplies Verdict(line), and TLC     *)
(* steps through the whole trace.  Verdicts are total: "ok", "skip" or the *)
(* name of the violated clause.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, verdict
TraceInit == l = 0 /\ verdict = "ok"
Consume(V(_)) ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ verdict' = V(Trace[l + 1])
    /\ (verdict' \in {"ok"} \/ PrintT(<<"VERDICT", Trace[l + 1].id, verdict'>>))
TraceAccepted ==
    /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
    /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
