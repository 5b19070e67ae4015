------------------------------- MODULE TraceCli -------------------------------
(* Judges recorded sessions: commands given to the real client and daemon.     *)
EXTENDS Life, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.TRACE_VERBOSE = "1"
VARIABLES tr, i
vars == <<cat, vals, fs, netVars, tr, i>>

HostOf(e) == [port |-> e.port, list |-> e.list, disc |-> e.disc, files |-> e.files,
              chunks |-> [h \in { e.chunks[k].hash : k \in DOMAIN e.chunks } |-> LET k == CHOOSE j \in DOMAIN e.chunks : e.chunks[j].hash = h IN e.chunks[k].chunks]]
FromDisk(l) == [h \in { l[k].hash : k \in DOMAIN l } |->
                  LET x == l[CHOOSE j \in DOMAIN l : l[j].hash = h]
                  IN [path |-> x.path, size |-> x.size, csize |-> x.csize, count |-> x.count, held |-> Members(x.held)]]

Seen(e) == /\ "disk" \in DOMAIN e => Projection(cat', [h \in DOMAIN cat' |-> <<>>], e.disk)
           /\ "alive" \in DOMAIN e => e.alive = up'

Act(e) ==
    CASE e.op = "self" -> /\ self' = [ip |-> e.ip, port |-> e.port] /\ UNCHANGED <<cat, vals, fs, up, online, lan>>
      [] e.op = "host" -> lan' = Put(lan, e.ip, HostOf(e)) /\ UNCHANGED <<cat, vals, fs, up, online, self>>
      [] e.op = "setup" -> /\ cat' = FromDisk(e.disk) /\ vals' = [h \in DOMAIN cat' |-> <<>>]
                           /\ fs' = FSOf(e.fs) /\ UNCHANGED netVars
      [] e.op \in {"write", "remove", "mkdir"} -> fs' = FSOf(e.fs) /\ Without(fs', e.path) = Without(fs, e.path) /\ Same /\ UNCHANGED netVars
      [] e.op = "start" -> Start(e.served) /\ fs' = fs
      [] e.op = "stop" -> Stop /\ fs' = fs
      [] e.op = "flash" -> Flash /\ fs' = fs
      [] e.op = "second" -> Second(e.rcs) /\ fs' = fs
      [] e.op = "fresh" -> Fresh /\ fs' = FSOf(e.fs)
      [] e.op = "cut" -> Cut(e.cmds, FromDisk(e.disk)) /\ fs' = fs
      [] e.op \in {"online", "offline"} -> online' = (e.op = "online") /\ Same /\ fs' = fs /\ UNCHANGED <<up, self, lan>>
      [] e.op \in {"abort", "burst"} -> Same /\ fs' = fs /\ UNCHANGED netVars
      [] e.op = "cli" -> Command(e) /\ fs' = fs
      [] OTHER -> FALSE

Init == /\ tr \in 1 .. Len(Traces) /\ i = 0 /\ cat = <<>> /\ vals = <<>> /\ fs = <<>>
        /\ up = FALSE /\ online = TRUE /\ self = [ip |-> "", port |-> 0] /\ lan = <<>>
Next == /\ i < Len(Traces[tr])
        /\ LET e == Traces[tr][i + 1]
           IN Act(e) /\ Seen(e) /\ ("fs" \in DOMAIN e => fs' = FSOf(e.fs))
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Done == i = Len(Traces[tr]) => PrintT(<<"ACC", tr>>)
At1 == Verbose => PrintT(<<"AT", tr, i>>)
=============================================================================
