------------------------------- MODULE Sender -------------------------------
(* How a node uploads (flu/senderConnection.go and friends), with one peer:   *)
(* every datagram is handled by a goroutine of its own, a transfer has a       *)
(* worker that is fed with acknowledgements through a bounded channel, and is  *)
(* cancelled when it has ended or another one takes its place.                 *)
(* Checked: whatever the interleaving, the peer observes what Upload allows,   *)
(* the transfer proceeds, and no worker is left behind.                        *)
EXTENDS Upload, TLC

CONSTANTS Lens,         \* lengths of the chunks that are requested, in packets
          Caps,         \* windows
          MaxReq,       \* requests
          Extra,        \* acknowledgements that are sent although nothing needs to be acknowledged
          NoSupersede,  \* a variant without the cancellation of the earlier transfer
          NoCancel      \* a variant whose worker does not end

VARIABLES wire,     \* datagrams on their way to the node, not in any order
          back,     \* packets on their way to the peer
          conns,    \* the transfers of the node
          up,       \* the one that acknowledgements go to, or 0
          extra, bad

vars == <<upVars, wire, back, conns, up, extra, bad>>
Nodes == <<wire, back, conns, up>>

NoConn == 0
Sent(c) == conns[c].sent

Init == /\ files = [k \in Lens |-> [count |-> 1, csize |-> k, last |-> k, held |-> {0}]]
        /\ cur = NoTransfer /\ old = NoTransfer /\ late = 0
        /\ wire = {} /\ back = <<>> /\ conns = <<>> /\ up = NoConn /\ extra = 0 /\ bad = FALSE

\* ---------------------------------------------------------------- the peer
\* it asks for something else at any time after the first packet
PeerAsks ==
    /\ cur.id < MaxReq
    /\ cur.id = 0 \/ cur.n > 0
    /\ \E l \in Lens, c \in Caps :
         /\ Request(cur.id + 1, l, 0, c)
         /\ wire' = wire \cup {[t |-> "req", id |-> cur.id + 1, len |-> l, cap |-> c]}
    /\ UNCHANGED <<back, conns, up, extra, bad>>

PeerTakes ==
    /\ back # <<>>
    /\ LET p == Head(back)
           n == IF p.last THEN 0 ELSE 1
           ok == Fits(cur, p.off, n, p.first, p.size, {p.id}, {p.id})
                 \/ (cur.n = 0 /\ Fits(old, p.off, n, p.first, p.size, {p.id}, {p.id}))
       IN IF ok THEN Packet(p.off, n, p.first, p.size, {p.id}, {p.id}) /\ UNCHANGED bad
          ELSE bad' = TRUE /\ UNCHANGED upVars
    /\ back' = Tail(back)
    /\ UNCHANGED <<wire, conns, up, extra>>

NewAck == LET k == 1 + Cardinality({ m \in wire : m.t = "ack" })
          IN [t |-> "ack", id |-> CHOOSE x \in 1 .. k : \A m \in wire : m.t = "ack" => m.id # x, len |-> 0, cap |-> 0]
PeerAcks ==
    /\ IF cur.n > cur.a \/ (cur.n = 0 /\ old.n > old.a) THEN UNCHANGED extra
       ELSE extra < Extra /\ extra' = extra + 1
    /\ Ack
    /\ wire' = wire \cup {NewAck}
    /\ UNCHANGED <<back, conns, up, bad>>

\* ---------------------------------------------------------------- the node
\* StartUpload: the transfer before is superseded, the new one is registered
NodeReads(m) ==
    /\ m \in wire /\ m.t = "req"
    /\ wire' = wire \ {m}
    /\ conns' = Append(IF up = NoConn \/ NoSupersede THEN conns ELSE [conns EXCEPT ![up].cancelled = TRUE],
                       [id |-> m.id, len |-> m.len, cap |-> m.cap, pos |-> 0, win |-> 0, queue |-> 0,
                        cancelled |-> FALSE, worker |-> "none", waiting |-> 0])
    /\ up' = Len(conns) + 1
    /\ UNCHANGED <<upVars, back, extra, bad>>

Packets(c, from, k) ==   \* k packets from position from, the last of them empty if that is the end
    [j \in 1 .. k |-> [id |-> conns[c].id, off |-> IF from + j - 1 > conns[c].len THEN conns[c].len ELSE from + j - 1,
                       first |-> from + j - 1 = 0, size |-> conns[c].len, last |-> from + j - 1 >= conns[c].len]]

Kickstart(c) ==
    /\ conns[c].worker = "none"
    /\ IF conns[c].cancelled
       THEN conns' = [conns EXCEPT ![c].worker = "done"] /\ UNCHANGED back
       ELSE /\ back' = back \o Packets(c, 0, 1)
            /\ conns' = [conns EXCEPT ![c].worker = "run", ![c].win = 1, ![c].pos = 1]
    /\ UNCHANGED <<upVars, wire, up, extra, bad>>

\* ContinueUpload: look up the transfer ..
NodeReadsAck(m) ==
    /\ m \in wire /\ m.t = "ack"
    /\ wire' = wire \ {m}
    /\ conns' = IF up = NoConn THEN conns ELSE [conns EXCEPT ![up].waiting = @ + 1]
    /\ UNCHANGED <<upVars, back, up, extra, bad>>
\* .. and hand the acknowledgement to its worker, unless the transfer has ended
Deliver(c) ==
    /\ conns[c].waiting > 0
    /\ \/ conns[c].queue < conns[c].cap /\ conns' = [conns EXCEPT ![c].waiting = @ - 1, ![c].queue = @ + 1]
       \/ conns[c].cancelled /\ conns' = [conns EXCEPT ![c].waiting = @ - 1]
    /\ UNCHANGED <<upVars, wire, back, up, extra, bad>>

\* the worker sends until the window is full or it has sent the end
Kick(c) ==
    /\ conns[c].worker = "run" /\ conns[c].queue > 0
    /\ LET w == conns[c].win - 1
           room == conns[c].cap - w
           left == conns[c].len + 1 - conns[c].pos      \* packets until after the end
           k == IF conns[c].cancelled THEN 0 ELSE IF room < left THEN room ELSE left
       IN /\ back' = back \o Packets(c, conns[c].pos, k)
          /\ conns' = [conns EXCEPT ![c].queue = @ - 1, ![c].win = w + k, ![c].pos = @ + k,
                                    ![c].cancelled = @ \/ (k = left /\ k > 0)]
    /\ UNCHANGED <<upVars, wire, up, extra, bad>>
WorkerEnds(c) ==
    /\ conns[c].worker = "run" /\ conns[c].cancelled /\ ~ NoCancel
    /\ conns' = [conns EXCEPT ![c].worker = "done"]
    /\ UNCHANGED <<upVars, wire, back, up, extra, bad>>
Unregister(c) ==
    /\ conns[c].cancelled /\ up = c
    /\ up' = NoConn
    /\ UNCHANGED <<upVars, wire, back, conns, extra, bad>>

NodeStep == \/ \E m \in wire : NodeReads(m) \/ NodeReadsAck(m)
            \/ \E c \in DOMAIN conns : Kickstart(c) \/ Deliver(c) \/ Kick(c) \/ WorkerEnds(c) \/ Unregister(c)
Next == PeerAsks \/ PeerTakes \/ PeerAcks \/ NodeStep

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(PeerTakes) /\ WF_vars(NodeStep)
        /\ WF_vars(PeerAcks)
        /\ \A c \in 1 .. MaxReq :
             /\ WF_vars(c \in DOMAIN conns /\ Kickstart(c))
             /\ WF_vars(c \in DOMAIN conns /\ Kick(c))
             /\ WF_vars(c \in DOMAIN conns /\ Deliver(c))
             /\ WF_vars(c \in DOMAIN conns /\ WorkerEnds(c))
             /\ WF_vars(c \in DOMAIN conns /\ Unregister(c))
        /\ WF_vars(\E m \in wire : NodeReads(m)) /\ WF_vars(\E m \in wire : NodeReadsAck(m))

\* ------------------------------------------------------------- properties
Explained == ~ bad
Idle == wire = {} /\ back = <<>> /\ ~ ENABLED NodeStep
\* when nothing can happen any more, nothing is owed and nothing is left
IdleOK == Idle => /\ ~ Owes
                  /\ \A c \in DOMAIN conns : conns[c].waiting = 0
                  /\ cur.ended => (up = NoConn /\ \A c \in DOMAIN conns : conns[c].worker = "done")
Proceeds == (cur.id = MaxReq) ~> (cur.id = MaxReq /\ cur.ended)
=============================================================================
