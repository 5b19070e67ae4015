---------------------------- MODULE TraceUpload ----------------------------
(* Are the recorded histories of peers that ask a node for chunks allowed?    *)
EXTENDS Upload, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.TRACE_VERBOSE = "1"
VARIABLES tr, i, asked
vars == <<upVars, tr, i, asked>>

SeqSet(q) == { q[k] : k \in 1 .. Len(q) }
Pairs(q) == UNION { q[2*k-1] .. q[2*k] : k \in 1 .. (Len(q) \div 2) }

Act(e) ==
    CASE e.op = "file"   -> /\ files' = (e.f :> [count |-> e.count, csize |-> e.csize, last |-> e.last, held |-> Pairs(e.held)]) @@ files
                            /\ UNCHANGED <<cur, old, late, asked>>
      [] e.op = "req"    -> Request(asked + 1, e.f, e.k, e.cap) /\ asked' = asked + 1
      [] e.op = "packet" -> /\ Packet(e.off, e.len, e.head = 1, e.size, { x + 1 : x \in SeqSet(e.announces) },
                                      { x + 1 : x \in SeqSet(e.of) })
                            /\ UNCHANGED asked
      [] e.op = "ack"    -> Ack /\ UNCHANGED asked
      [] e.op = "pause"  -> (IF e.ms >= 500 THEN Pause ELSE UNCHANGED upVars) /\ UNCHANGED asked
      [] e.op = "stall"  -> Stall /\ UNCHANGED asked
      [] e.op = "unshare" -> e.ok /\ Unshare(e.f) /\ UNCHANGED asked
      \* the node, at the end: workers left although all transfers have ended
      [] e.op = "left"   -> e.n = 0 /\ UNCHANGED <<upVars, asked>>
      [] e.op = "alive"  -> e.ok /\ UNCHANGED <<upVars, asked>>
      [] OTHER           -> FALSE

Init == tr \in 1 .. Len(Traces) /\ i = 0 /\ asked = 0 /\ UpInit
Next == /\ i < Len(Traces[tr])
        /\ Act(Traces[tr][i + 1])
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Done == i = Len(Traces[tr]) => PrintT(<<"ACC", tr>>)
At == Verbose => PrintT(<<"AT", tr, i>>)
=============================================================================
