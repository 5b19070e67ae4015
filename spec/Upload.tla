------------------------------- MODULE Upload -------------------------------
(* What a peer (one address and port) that asks a node for chunks may observe. *)
(* A transfer is the node's reaction to one request: a first packet announcing *)
(* the chunk, packets that continue where the previous one ended, and one      *)
(* empty packet at the end. A new request ends the transfer before it.         *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES files,    \* [count, csize, last, held] (last: of the last chunk) of the files the node has, by number
          cur,      \* the transfer of the latest request, and the one before it
          old,
          late      \* acknowledgements that the node may not have read yet

upVars == <<files, cur, old, late>>

ChunkLen(f, k) == IF k = f.count - 1 THEN f.last ELSE f.csize
Holds(f, k) == f \in DOMAIN files /\ k \in files[f].held

\* id: which of the peer's requests; pos: where the next packet starts; n: packets received;
\* a: packets acknowledged; slack: acknowledgements of earlier transfers that the node may take for
\* ones of this transfer
NoTransfer == [id |-> 0, len |-> 0, cap |-> 0, pos |-> 0, n |-> 0, a |-> 0, slack |-> 0, ended |-> TRUE, owed |-> FALSE]
Transfer(id, len, cap, slack) ==
    [id |-> id, len |-> len, cap |-> cap, pos |-> 0, n |-> 0, a |-> 0, slack |-> slack, ended |-> FALSE, owed |-> TRUE]
Last == IF cur.id > old.id THEN cur.id ELSE old.id

UpInit == files = <<>> /\ cur = NoTransfer /\ old = NoTransfer /\ late = 0

\* id is a number the peer has not used before
Request(id, f, k, cap) ==
    /\ UNCHANGED <<files, late>>
    /\ IF Holds(f, k)
       THEN /\ old' = cur
            /\ cur' = Transfer(id, ChunkLen(files[f], k), cap, late)
       ELSE UNCHANGED <<cur, old>>

\* A packet of n bytes at offset off. head: it announces a chunk of the given size; ann and of: the
\* requests whose chunk it announces, and whose bytes at that offset are the bytes of the packet
Fits(t, off, n, head, size, ann, of) ==
    /\ ~ t.ended
    /\ off = t.pos /\ off + n <= t.len
    /\ t.id \in of
    /\ t.n = 0 => head /\ size = t.len /\ t.id \in ann
    /\ head => t.n = 0
    /\ (n = 0 /\ t.n > 0) => t.pos = t.len     \* the end
    /\ n = 0 => (t.n > 0 \/ t.len = 0)         \* no other packet is empty
    /\ t.n + 1 - t.a <= t.cap + t.slack          \* the window
Took(t, n) == [t EXCEPT !.pos = @ + n, !.n = @ + 1, !.ended = (n = 0 /\ t.n > 0)]

Packet(off, n, head, size, ann, of) ==
    /\ UNCHANGED <<files, late>>
    /\ \/ /\ Fits(cur, off, n, head, size, ann, of)
          /\ cur' = Took(cur, n)
          /\ old' = NoTransfer     \* the earlier transfer was over when this one began
       \/ /\ cur.n = 0             \* sent before the node had read the latest request
          /\ Fits(old, off, n, head, size, ann, of)
          /\ old' = Took(old, n)
          /\ UNCHANGED cur

Ack == /\ late' = late + 1
       /\ IF cur.n > 0 \/ cur.id = 0
          THEN cur' = [cur EXCEPT !.a = @ + 1] /\ UNCHANGED old
          ELSE \* for the earlier transfer, but it may be taken for the latest
               old' = [old EXCEPT !.a = @ + 1] /\ cur' = [cur EXCEPT !.slack = @ + 1]
       /\ UNCHANGED files

\* a while in which the node reads everything that was sent to it
Pause == late' = 0 /\ UNCHANGED <<files, cur, old>>

\* the node must send something: everything so far has been acknowledged, and it is not the end
Owes == cur.owed /\ ~ cur.ended /\ cur.a >= cur.n
\* nothing arrived for a long time
Stall == ~ Owes /\ UNCHANGED upVars

\* The file is not shared any more. The transfer may go on or not.
Unshare(f) ==
    /\ f \in DOMAIN files
    /\ files' = [g \in DOMAIN files \ {f} |-> files[g]]
    /\ cur' = [cur EXCEPT !.owed = FALSE]
    /\ old' = [old EXCEPT !.owed = FALSE]
    /\ UNCHANGED late

\* ------------------------------------------------------------- properties
TransferOK(t) == /\ t.pos \in 0 .. t.len
                 /\ t.ended /\ t.id # 0 => t.pos = t.len \* all of it has been delivered by then
                 /\ t.n = 0 => t.pos = 0
                 /\ t.n - t.a <= t.cap + t.slack
UpOK == /\ TransferOK(cur)
        /\ TransferOK(old)
        /\ (cur.id = 0 \/ cur.id > old.id)
=============================================================================
