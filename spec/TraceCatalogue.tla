--------------------------- MODULE TraceCatalogue ---------------------------
(* Judges recorded histories of catalogue operations. Every event carries the *)
(* operation, its result, and what was observed afterwards: the files (fs),   *)
(* the live catalogue (live), and the catalogue as reopened from its          *)
(* directory (disk).                                                          *)
EXTENDS CatOps, Stored, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.TRACE_VERBOSE = "1"
VARIABLES tr, i
vars == <<cat, vals, fs, tr, i>>

\* what an operation may do to the files
Files(e) == IF e.op = "save" THEN FilesKeptBut(e.hash) ELSE FilesKept

Observed(e) ==
    /\ "live" \in DOMAIN e => Projection(cat', vals', e.live)
    /\ "disk" \in DOMAIN e => Projection(cat', vals', e.disk)

\* an operation that was interrupted: all or nothing, as seen from the disk
Crash(e) ==
    /\ e.opened
    /\ Same \/ Op(e.inner)
    /\ Files(e.inner)
    /\ Projection(cat', vals', e.disk)

\* an operation during which file-system calls failed: an error and no change, or success
Fault(e) ==
    /\ IF e.inner.ok THEN Op(e.inner) ELSE Same
    /\ Files(e.inner)
    /\ Projection(cat', vals', e.live)
    /\ Projection(cat', vals', e.disk)

\* a catalogue that an earlier version has stored is opened: it is what the stored bytes stand for
Found(e) ==
    LET H == { e.entries[k].hash : k \in DOMAIN e.entries }
        X(h) == e.entries[CHOOSE k \in DOMAIN e.entries : e.entries[k].hash = h]
    IN /\ e.ok
       /\ cat' = [h \in H |-> [path |-> X(h).path, size |-> X(h).size, csize |-> X(h).csize, count |-> Meant(X(h).bytes).count,
                               held |-> Meant(X(h).bytes).held]]
       /\ vals' = [h \in H |-> <<>>]
       /\ Observed(e)

Step(e) ==
    /\ fs' = FSOf(e.fs)
    /\ CASE e.op = "crash" -> Crash(e)
         [] e.op = "fault" -> Fault(e)
         [] e.op = "stored" -> Found(e)
         [] e.op = "outside" -> Outside(e.path)
         [] OTHER -> Op(e) /\ Files(e) /\ Observed(e)

Init == tr \in 1 .. Len(Traces) /\ i = 0 /\ cat = <<>> /\ vals = <<>> /\ fs = <<>>
Next == /\ i < Len(Traces[tr])
        /\ Step(Traces[tr][i + 1])
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Done == i = Len(Traces[tr]) => PrintT(<<"ACC", tr>>)
At1 == Verbose => PrintT(<<"AT", tr, i>>)
=============================================================================
