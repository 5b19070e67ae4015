------------------------------ MODULE Download ------------------------------
(* What a node that downloads may do, as seen by its peers, its user and in   *)
(* its catalogue. The bytes of chunks are known by a number (their digest).   *)
EXTENDS Integers, Sequences, FiniteSets, BigNat

VARIABLES dl,     \* [file -> see Setup]
          peers   \* [peer -> is it honest]

dlVars == <<dl, peers>>

DlInit == dl = <<>> /\ peers = <<>>

Put(fn, x, v) == [y \in DOMAIN fn \cup {x} |-> IF y = x THEN v ELSE fn[y]]
Upd(f, r) == dl' = [dl EXCEPT ![f] = r] /\ UNCHANGED peers

Chunks(d) == 0 .. Len(d.truth) - 1
ChunkLen(d, k) == IF d.size - k * d.csize > d.csize THEN d.csize ELSE d.size - k * d.csize
Complete(d) == d.listed /\ DOMAIN d.held = Chunks(d)
Genuine(d) == \A k \in DOMAIN d.held : d.held[k] = d.truth[k + 1]
Lied(d) == (\E k \in DOMAIN d.held : d.held[k] # d.truth[k + 1]) \/ (\E a \in d.announced : a[2] # d.truth[a[1] + 1])

\* A file that the user may ask for: its size, the chunk size, the digests of its chunks; and whether
\* the node has an entry for it from the start, with which chunks
Setup(f, size, csize, truth, known, has) ==
    /\ dl' = Put(dl, f, [size |-> size, csize |-> csize, truth |-> truth,
                         listed |-> known, held |-> [k \in has |-> truth[k + 1]],
                         may |-> FALSE,         \* may it become listed: a request is under way
                         gets |-> 0, pend |-> 0,\* requests of the user; those that did not return yet
                         meta |-> {},           \* what peers have said about it
                         offers |-> <<>>,       \* per discovery: set of <<peer, chunk>> offered
                         asked |-> {},          \* chunks that were requested
                         announced |-> {},      \* <<chunk, digest, size>> announced in transfers
                         removed |-> FALSE, left |-> 0])  \* discoveries and requests that may follow
    /\ UNCHANGED peers
Peer(p, honest) == peers' = Put(peers, p, honest) /\ UNCHANGED dl

\* ---------------------------------------------------------------- the user
Get(f) == Upd(f, [dl[f] EXCEPT !.gets = @ + 1, !.pend = @ + 1, !.may = TRUE, !.removed = FALSE])

\* what a peer says about the file: [size, csize, count] (BigNat, BigNat, number), or <<>> for anything else
\* than one entry for it
Meta(f, m) == Upd(f, [dl[f] EXCEPT !.meta = @ \cup {m}])
Sound(m) == m # <<>> /\ m[3] <= 65536 /\ Divides(m[1], m[2], m[3])

\* .. returned: if it was accepted, then the file is listed, in a place of its own among the downloads
Got(f, ok, good, unique, shape) ==
    LET d == dl[f]
    IN /\ good /\ unique
       /\ ((d.listed /\ d.meta # {}) => \E m \in d.meta : Sound(m) /\ m = shape) = TRUE
       /\ ((ok /\ d.meta # {}) => \E m \in d.meta : Sound(m)) = TRUE
       /\ Upd(f, [d EXCEPT !.pend = @ - 1, !.may = (d.pend > 1)])

\* The file is not in the catalogue any more. Its download stops: what is under way may still be seen
Remove(f) ==
    LET d == dl[f]
    IN /\ (d.listed \/ d.may) = TRUE  \* (it may have become listed just now)
       /\ Upd(f, [d EXCEPT !.listed = FALSE, !.held = <<>>, !.removed = TRUE, !.may = (d.pend > 0), !.left = d.gets + 1])

\* The node is killed and started again. Its downloads have ended; what is asked for from now on is new
Restart == dl' = [f \in DOMAIN dl |-> [dl[f] EXCEPT !.pend = 0, !.may = FALSE, !.left = 0, !.gets = IF @ = 0 THEN 0 ELSE @ + 1]]
           /\ UNCHANGED peers

\* ---------------------------------------------------------------- the network
\* A discovery is seen: for a file somebody asked for
Discovery(f) ==
    LET d == dl[f]
    IN /\ (d.gets > 0 /\ (d.listed \/ d.may \/ d.left > 0)) = TRUE
       /\ Upd(f, [d EXCEPT !.offers = Append(@, {}), !.left = IF d.listed \/ d.may THEN @ ELSE @ - 1])

\* a peer answers the latest discovery
Offer(f, p, chunks) ==
    LET d == dl[f]
    IN /\ d.offers # <<>>
       /\ Upd(f, [d EXCEPT !.offers[Len(d.offers)] = @ \cup { <<p, k>> : k \in chunks }])

\* Discoveries whose answers may still be in use: the latest one, and if the user has asked repeatedly
\* those of the other downloads of the same file.
Recent(d) == LET n == Len(d.offers)
                 m == IF d.gets = 1 THEN 1 ELSE 3 * d.gets + Cardinality(DOMAIN peers)
             IN (IF n > m THEN n - m + 1 ELSE 1) .. n

\* The node asks peer p for chunk k
Open(f, p, k) ==
    LET d == dl[f]
    IN /\ p \in DOMAIN peers
       /\ k \notin DOMAIN d.held
       /\ (\E j \in Recent(d) : <<p, k>> \in d.offers[j]) = TRUE
       /\ (d.listed \/ d.left > 0) = TRUE
       /\ Upd(f, [d EXCEPT !.asked = @ \cup {k}, !.left = IF d.listed THEN @ ELSE @ - 1])

Announce(f, k, digest, size) == Upd(f, [dl[f] EXCEPT !.announced = @ \cup {<<k, digest, size>>}])

\* ---------------------------------------------------------------- the catalogue
\* Chunks have been added to what the catalogue has: verified data only
Shows(f, added) ==
    LET d == dl[f]
    IN /\ (d.listed \/ d.may) = TRUE
       /\ DOMAIN added \cap DOMAIN d.held = {}
       /\ DOMAIN added \subseteq Chunks(d)
       /\ \A k \in DOMAIN added : <<k, added[k], ChunkLen(d, k)>> \in d.announced
       /\ Upd(f, [d EXCEPT !.listed = TRUE, !.removed = FALSE,
                           !.held = [k \in DOMAIN d.held \cup DOMAIN added |-> IF k \in DOMAIN added THEN added[k] ELSE d.held[k]]])

\* It is not listed: not yet, not any more, or the chunks turned out not to make up the file
ShowsNot(f) ==
    LET d == dl[f]
    IN \/ ~ d.listed /\ UNCHANGED dlVars
       \/ /\ d.listed
          /\ (\A k \in Chunks(d) : k \in DOMAIN d.held \/ \E a \in d.announced : a[1] = k) = TRUE
          /\ Lied(d) = TRUE
          /\ Upd(f, [d EXCEPT !.listed = FALSE, !.held = <<>>, !.removed = TRUE, !.may = (d.pend > 0), !.left = d.gets + 1])

\* A peer asks the node for a chunk, and gets one with this digest (0: none); and for its entry of the
\* file, and gets that many (-1: no answer). At the end nothing else happens at the same time.
Serve(f, k, digest, entries, end) ==
    LET d == dl[f]
    IN /\ (d.listed \/ d.may \/ (digest = 0 /\ entries <= 0)) = TRUE
       /\ end /\ d.listed => entries = 1 /\ (k \in DOMAIN d.held => digest = d.held[k])
       /\ UNCHANGED dlVars

\* ------------------------------------------------------------- the end
\* Chunks that honest peers have offered so often that even if all others were asked for first, it is
\* their turn.
Honestly(d, j) == { o[2] : o \in { x \in d.offers[j] : x[1] \in DOMAIN peers /\ peers[x[1]] } }
Due(d) == LET seen == UNION { Honestly(d, j) : j \in DOMAIN d.offers }
              often == d.gets * (Cardinality(seen) + 2)
          IN { k \in seen \cap Chunks(d) : Cardinality({ j \in DOMAIN d.offers : k \in Honestly(d, j) }) >= often }

\* Nothing happens any more, or not for long: every chunk that could be had is there, or was asked for
Rest(f) ==
    LET d == dl[f]
    IN /\ ~ d.removed => Due(d) \subseteq DOMAIN d.held \cup d.asked
       /\ (Complete(d) => Genuine(d) \/ Lied(d)) = TRUE
       /\ UNCHANGED dlVars

\* Everything could be had: it is complete now
Finished(f) == Complete(dl[f]) /\ Genuine(dl[f]) /\ UNCHANGED dlVars
\* .. or, if peers have sent something else, it was and then was given up
Settled(f) == (dl[f].removed \/ (Complete(dl[f]) /\ (Genuine(dl[f]) \/ Lied(dl[f])))) = TRUE /\ UNCHANGED dlVars
\* Peers have sent something else: it is not kept
Unkept(f) == ~ Complete(dl[f]) /\ UNCHANGED dlVars

\* ------------------------------------------------------------- properties
DlOK == \A f \in DOMAIN dl :
          LET d == dl[f]
          IN /\ DOMAIN d.held \subseteq Chunks(d)
             /\ ~ d.listed => d.held = <<>>
             /\ d.asked \subseteq Chunks(d)
             /\ (Complete(d) /\ ~ Lied(d)) => Genuine(d)
=============================================================================
