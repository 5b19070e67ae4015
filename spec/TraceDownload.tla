---------------------------- MODULE TraceDownload ----------------------------
(* Are the recorded histories of nodes that download allowed?                 *)
EXTENDS Download, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.TRACE_VERBOSE = "1"
VARIABLES tr, i
vars == <<dlVars, tr, i>>

SeqSet(q) == { q[k] : k \in 1 .. Len(q) }
Pairs(q) == UNION { q[2*k-1] .. q[2*k] : k \in 1 .. (Len(q) \div 2) }
Fn(q) == [k \in { q[j][1] : j \in 1 .. Len(q) } |-> (CHOOSE x \in SeqSet(q) : x[1] = k)[2]]

Act(e) ==
    CASE e.op = "file"  -> Setup(e.f, e.size, e.csize, e.truth, e.known, SeqSet(e.has))
      [] e.op = "peer"  -> Peer(e.p, e.honest)
      [] e.op = "get"   -> Get(e.f)
      [] e.op = "got"   -> Got(e.f, e.ok, e.good, e.unique, e.shape)
      [] e.op = "list"  -> e.f >= 0 /\ Meta(e.f, e.meta)
      [] e.op = "remove" -> IF e.ok THEN Remove(e.f) ELSE ShowsNot(e.f)
      [] e.op = "restart" -> Restart
      [] e.op = "disc"  -> e.f >= 0 /\ Discovery(e.f)
      [] e.op = "offer" -> Offer(e.f, e.p, Pairs(e.chunks) \cap Chunks(dl[e.f]))
      [] e.op = "open"  -> e.f >= 0 /\ e.cap > 0 /\ Open(e.f, e.p, e.k)
      [] e.op = "announce" -> Announce(e.f, e.k, e.d, e.size)
      [] e.op = "obs"   -> IF e.listed THEN e.changed = <<>> /\ e.gone = <<>> /\ Shows(e.f, Fn(e.added)) ELSE ShowsNot(e.f)
      [] e.op = "serve" -> Serve(e.f, e.k, e.d, e.entries, e.end)
      [] e.op = "rest"  -> Rest(e.f)
      [] e.op = "finished" -> Finished(e.f)
      [] e.op = "settled" -> Settled(e.f)
      [] e.op = "unkept" -> Unkept(e.f)
      [] e.op = "outside" -> e.changes = <<>> /\ UNCHANGED dlVars
      [] e.op = "alive" -> e.ok /\ UNCHANGED dlVars
      [] OTHER          -> FALSE

Init == tr \in 1 .. Len(Traces) /\ i = 0 /\ DlInit
Next == /\ i < Len(Traces[tr])
        /\ Act(Traces[tr][i + 1])
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Done == i = Len(Traces[tr]) => PrintT(<<"ACC", tr>>)
At == Verbose => PrintT(<<"AT", tr, i>>)
=============================================================================
