------------------------------ MODULE TraceConc ------------------------------
(* Judges recorded histories of overlapping catalogue operations: they are    *)
(* linearizable if every operation can be given an instant between its call   *)
(* and its return so that the results, and the final state live and on disk,  *)
(* are those of the operations performed one by one in that order.            *)
(* Instants are only chosen just before a return that needs one: any other    *)
(* choice can be moved there.                                                 *)
EXTENDS CatOps, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.TRACE_VERBOSE = "1"
VARIABLES tr, i, pend, done
vars == <<cat, vals, fs, tr, i, pend, done>>

T == Traces[tr]
NPre == Len(T.pre)
Ev == T.ev[i - NPre + 1]            \* the next event, after the first NPre operations
N == NPre + Len(T.ev)

Init == tr \in 1 .. Len(Traces) /\ i = 0 /\ cat = <<>> /\ vals = <<>> /\ fs = <<>> /\ pend = {} /\ done = {}

\* operations that came before any overlap
Pre == /\ i < NPre
       /\ LET e == T.pre[i + 1] IN
          /\ fs' = FSOf(e.fs)
          /\ IF e.op = "outside" THEN Outside(e.path) ELSE Op(e) /\ FilesKept
          /\ "live" \in DOMAIN e => Projection(cat', vals', e.live)
       /\ i' = i + 1
       /\ UNCHANGED <<pend, done>>
Call == /\ i >= NPre /\ i < N /\ Ev[1] = "call"
        /\ pend' = pend \cup {Ev[2]}
        /\ i' = i + 1
        /\ UNCHANGED <<cat, vals, fs, done>>
Linearize == /\ i >= NPre /\ i < N /\ Ev[1] = "ret" /\ Ev[2] \notin done
             /\ \E id \in pend :
                  /\ Op(T.recs[id])
                  /\ pend' = pend \ {id}
                  /\ done' = done \cup {id}
             /\ UNCHANGED <<fs, i>>
Ret == /\ i >= NPre /\ i < N /\ Ev[1] = "ret" /\ Ev[2] \in done
       /\ done' = done \ {Ev[2]}
       /\ i' = i + 1
       /\ UNCHANGED <<cat, vals, fs, pend>>
End == /\ i = N
       /\ Projection(cat, vals, T.end.live)
       /\ Projection(cat, vals, T.end.disk)
       /\ i' = i + 1
       /\ UNCHANGED <<cat, vals, fs, pend, done>>
Next == (Pre \/ Call \/ Linearize \/ Ret \/ End) /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Done == i = N + 1 => PrintT(<<"ACC", tr>>)
At1 == Verbose => PrintT(<<"AT", tr, i>>)
=============================================================================
