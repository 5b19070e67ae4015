------------------------------- MODULE TraceRest -------------------------------
(* Do the recorded nodes let go of what they no longer need?                  *)
EXTENDS Rest, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.TRACE_VERBOSE = "1"
VARIABLES tr, i
vars == <<restVars, tr, i>>

Act(e) == CASE e.op = "begin" -> Begin(e.w)
            [] e.op = "end"   -> End(e.w)
            [] e.op = "clean" -> Clean(e.entries)
            [] e.op = "base"  -> Base(e.has)
            [] e.op = "rest"  -> Rest(e.has)
            [] OTHER          -> FALSE

Init == tr \in 1 .. Len(Traces) /\ i = 0 /\ RestInit
Next == /\ i < Len(Traces[tr])
        /\ Act(Traces[tr][i + 1])
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Done == i = Len(Traces[tr]) => PrintT(<<"ACC", tr>>)
At == Verbose => PrintT(<<"AT", tr, i>>)
=============================================================================
