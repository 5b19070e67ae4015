----------------------------- MODULE TraceSwarm -----------------------------
(* Are the recorded histories of a network of real nodes allowed?             *)
EXTENDS Swarm, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.TRACE_VERBOSE = "1"
VARIABLES tr, i
vars == <<swVars, tr, i>>
SeqSet(q) == { q[k] : k \in 1 .. Len(q) }

Act(e) ==
    CASE e.op = "file" -> count' = (e.f :> e.count) @@ count /\ UNCHANGED <<has, want, ever, up>>
      [] e.op = "node" -> /\ has' = (e.n :> [f \in DOMAIN count |-> {}]) @@ has
                          /\ up' = up \cup {e.n} /\ UNCHANGED <<count, want, ever>>
      [] e.op = "hold" -> has' = [has EXCEPT ![e.n][e.f] = SeqSet(e.chunks)] /\ UNCHANGED <<count, want, ever, up>>
      [] e.op = "get"  -> Get(e.n, e.f)
      [] e.op = "kill" -> Kill(e.n)
      [] e.op = "start" -> Start(e.n)
      [] e.op = "obs"  -> /\ e.changed = <<>> /\ e.gone = <<>>
                          /\ \A k \in 1 .. Len(e.added) : e.added[k][2]     \* the right bytes
                          /\ Gain(e.n, e.f, { e.added[k][1] : k \in 1 .. Len(e.added) })
      [] e.op = "whole" -> e.same /\ UNCHANGED swVars
      [] e.op = "end"  -> e.alive /\ Settled(e.n)
      [] OTHER -> FALSE

Init == tr \in 1 .. Len(Traces) /\ i = 0 /\ count = <<>> /\ has = <<>> /\ want = {} /\ ever = {} /\ up = {}
Next == /\ i < Len(Traces[tr])
        /\ Act(Traces[tr][i + 1])
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Done == i = Len(Traces[tr]) => PrintT(<<"ACC", tr>>)
At == Verbose => PrintT(<<"AT", tr, i>>)
=============================================================================
