--------------------------- MODULE TraceDiscovery ---------------------------
(* Judges a recorded history of discoveries, requests seen on the network,    *)
(* responses sent to the node, and results. Events are in order of time, and  *)
(* carry the time in milliseconds. When a response sent at time t arrives is  *)
(* not observed; the result of a discovery must be explained by some arrivals *)
(* of responses that were sent, not long before it started and not after it   *)
(* returned, and include those that came in good time.                        *)
EXTENDS Wire, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.TRACE_VERBOSE = "1"

Margin  == 700      \* a response may take so long to arrive
GoodTime == 1000    \* responses sent so soon after the request are in time
MaxWait == 8000     \* a discovery takes no longer

VARIABLES tr, i,
          disc      \* open discoveries: d -> [at, hash, chunks, id, seen]
vars == <<tr, i, disc>>

Ev == Traces[tr][i + 1]
Drop(f, d) == [x \in DOMAIN f \ {d} |-> f[x]]

Call == /\ Ev.op = "call" /\ Ev.d \notin DOMAIN disc
        /\ disc' = disc @@ (Ev.d :> [at |-> Ev.at, hash |-> Ev.hash, chunks |-> Ev.chunks, id |-> -1, seen |-> 0])

\* the request that was broadcast for discovery d: asks for the right thing, with an id of its own
Req == /\ Ev.op = "req" /\ Ev.d \in DOMAIN disc
       /\ LET m == Decode(Ev.b) IN
            /\ m.t = DiscoverReq
            /\ disc[Ev.d].id = -1
            /\ m \in Arrivals([t |-> DiscoverReq, id |-> m.id, hash |-> disc[Ev.d].hash, chunks |-> disc[Ev.d].chunks])
            /\ \A d \in DOMAIN disc : disc[d].id # m.id
            /\ disc' = [disc EXCEPT ![Ev.d].id = m.id, ![Ev.d].seen = Ev.at]

\* message b was sent to the node, n times from now on
Send == Ev.op = "send" /\ UNCHANGED disc

\* what was sent so far with the given id, not before t
Sent(id, t) ==
    LET es == SelectSeq(SubSeq(Traces[tr], 1, i),
                        LAMBDA e : e.op = "send" /\ e.at >= t /\ Len(e.b) >= 10 /\ e.b[1] = DiscoverRes /\ At16(e.b, 2) = id)
    IN [k \in DOMAIN es |-> [at |-> es[k].at, m |-> Decode(es[k].b), sure |-> es[k].sure, n |-> es[k].n]]

Count(seq, x) == Cardinality({ k \in DOMAIN seq : seq[k] = x })
RECURSIVE Copies(_, _)
Copies(seq, m) == IF seq = <<>> THEN 0 ELSE (IF Head(seq).m = m THEN Head(seq).n ELSE 0) + Copies(Tail(seq), m)
Range2(seq) == { seq[k] : k \in DOMAIN seq }

Ret == /\ Ev.op = "ret" /\ Ev.d \in DOMAIN disc
       /\ LET me == disc[Ev.d]
              mine == SelectSeq(Sent(me.id, me.at - Margin), LAMBDA s : s.m.t = DiscoverRes)
              must == SelectSeq(mine, LAMBDA s : s.sure /\ s.at >= me.seen /\ s.at <= me.seen + GoodTime)
              res == SelectSeq(Ev.res, LAMBDA r : r.addr # Ev.self)
          IN /\ me.id # -1
             /\ Ev.at - me.at <= MaxWait
             /\ \A r \in Range2(res) : Count(res, r) <= Copies(mine, [t |-> DiscoverRes, id |-> me.id] @@ r)
             /\ \A k \in DOMAIN must : \E j \in DOMAIN res :
                    [t |-> DiscoverRes, id |-> me.id] @@ res[j] = must[k].m
             \* the node's own answer, if it hears itself, comes once
             /\ Len(Ev.res) - Len(res) <= 1
       /\ disc' = Drop(disc, Ev.d)

\* the node answered a discovery request of somebody else
Alive == Ev.op = "alive" /\ Ev.ok /\ UNCHANGED disc

Init == tr \in 1 .. Len(Traces) /\ i = 0 /\ disc = <<>>
Next == /\ i < Len(Traces[tr])
        /\ Call \/ Req \/ Send \/ Ret \/ Alive
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Done == i = Len(Traces[tr]) /\ disc = <<>> => PrintT(<<"ACC", tr>>)
At == Verbose => PrintT(<<"AT", tr, i>>)
=============================================================================
