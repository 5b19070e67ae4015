---------------------------- MODULE TraceDaemon ----------------------------
EXTENDS Daemon, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.TRACE_VERBOSE = "1"
VARIABLES tr, i
vars == <<addr, cat, open, tr, i>>

NodeAddr == <<10, 77, 0, 1>>

SeqSet(q) == { q[k] : k \in 1 .. Len(q) }

Act(e) ==
    CASE e.op = "register" -> Register([hash |-> e.hash, name |-> e.name, size |-> e.size, csize |-> e.csize,
                                        count |-> e.count, held |-> Members(e.held)])
      [] e.op = "save"     -> Save(e.hash, e.chunk)
      [] e.op = "unshare"  -> Unshare(e.hash)
      [] e.op = "serve"    -> Serve(e.b, e.tries, e.replies)
      \* the code under test asked the node for its files
      [] e.op = "listcall" -> /\ ~ e.err
                              /\ AnswersList(e.res, [id |-> e.res.id, hash |-> e.hash])
                              /\ UNCHANGED <<addr, cat, open>>
      \* it asked a host that answered with e.b, or not at all
      [] e.op = "listbad"  -> /\ e.ms < 8000
                              /\ IF Decode(e.b).t = ListRes THEN e.err \/ e.res = Decode(e.b) ELSE e.err
                              /\ UNCHANGED <<addr, cat, open>>
      \* the node is up and answers its own command line
      [] e.op = "alive"    -> e.ok /\ UNCHANGED <<addr, cat, open>>
      [] e.op = "move"     -> Move(e.addr)
      [] OTHER             -> FALSE

Init == tr \in 1 .. Len(Traces) /\ i = 0 /\ addr = NodeAddr /\ cat = {} /\ open = FALSE
Next == /\ i < Len(Traces[tr])
        /\ Act(Traces[tr][i + 1])
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Done == i = Len(Traces[tr]) => PrintT(<<"ACC", tr>>)
At == Verbose => PrintT(<<"AT", tr, i>>)
=============================================================================
