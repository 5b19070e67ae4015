------------------------------ MODULE Receiver ------------------------------
(* A node receives a chunk of three packets (and an empty one at the end) from *)
(* a peer and a network that may do anything: drop, repeat, reorder, corrupt,  *)
(* cut and invent packets, lie about sizes and digests, or send other content. *)
(* Design of the receiver, and generator of transfers to try on a real one.    *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANT Depth

VARIABLES mode,   \* what the peer sends: the true content "t" or some other one, consistently "l"
          hdr,    \* digest announced: "none", "t", "l", "x" (of nothing)
          size,   \* size announced: "right", "zero", "less", "more", "half"
          buf,    \* what was received, per packet: "." nothing, "t", "l", "x" something else
          state,  \* "open", "saved", "dropped"
          path    \* the packets so far

vars == <<mode, hdr, size, buf, state, path>>
Empty == <<".", ".", ".">>
Init == mode = "t" /\ hdr = "none" /\ size = "right" /\ buf = Empty /\ state = "open" /\ path = <<>>

Sent(tok) == path' = Append(path, tok)
Keep == UNCHANGED <<mode, hdr, size, buf, state>>
Drop == state' = "dropped" /\ UNCHANGED <<mode, hdr, size, buf>>

\* a packet with offset 0: announces a digest and a size, and begins anew
Header(h, s, cell) ==
    IF s = "toolong" THEN Drop
    ELSE hdr' = h /\ size' = s /\ buf' = [Empty EXCEPT ![1] = cell] /\ UNCHANGED <<mode, state>>

\* is the place of packet i within the announced size
Room(i) == CASE size = "zero" -> FALSE
             [] size = "half" -> i = 1
             [] OTHER -> TRUE
Data(i, cells) ==
    IF hdr = "none" \/ ~ Room(i) THEN Drop
    ELSE buf' = [j \in 1 .. 3 |-> IF j \in DOMAIN cells THEN cells[j] ELSE buf[j]] /\ UNCHANGED <<mode, hdr, size, state>>

\* what was announced is what was received
Verified == hdr \in {"t", "l"} /\ size = "right" /\ \A j \in 1 .. 3 : buf[j] = hdr
End == IF hdr = "none" \/ size \in {"zero", "less", "half"} THEN Drop
       ELSE state' = (IF Verified THEN "saved" ELSE "dropped") /\ UNCHANGED <<mode, hdr, size, buf>>

Packet ==
    \/ Sent("head") /\ Header(mode, "right", mode)
    \/ Sent("badhash") /\ Header("x", "right", mode)
    \/ Sent("size0") /\ Header(mode, "zero", mode)
    \/ Sent("size1") /\ Header(mode, "less", mode)
    \/ Sent("size2") /\ Header(mode, "more", mode)
    \/ \E s \in {"size3", "size4", "size6"} : Sent(s) /\ Header(mode, "toolong", mode)
    \/ Sent("size5") /\ Header(mode, "half", mode)
    \/ Sent("X0") /\ Header(mode, "right", "x")
    \/ Sent("C0") /\ Header(mode, "right", "x")
    \/ \E i \in 1 .. 2 : Sent("D" \o ToString(i)) /\ Data(i, (i + 1) :> mode)
    \/ \E i \in 1 .. 2 : Sent("X" \o ToString(i)) /\ Data(i, (i + 1) :> "x")
    \/ \E i \in 1 .. 2 : Sent("C" \o ToString(i)) /\ Data(i, (i + 1) :> "x")
    \/ \E i \in 1 .. 2 : Sent("S" \o ToString(i)) /\ Data(i, IF i = 1 THEN (2 :> "x") @@ (3 :> "x") ELSE 3 :> "x")
    \/ Sent("L1") /\ Data(1, (2 :> mode) @@ (3 :> "x"))
    \/ Sent("L2") /\ Data(2, 3 :> mode)
    \/ Sent("E") /\ End
    \/ Sent("mid") /\ (IF size = "half" THEN Drop ELSE End)
    \/ \E t \in {"shorthead0", "shorthead23", "zero", "max", "beyond3"} : Sent(t) /\ Drop
    \/ \E t \in {"tiny0", "tiny4"} : Sent(t) /\ Keep
    \/ \E t \in {"T1"} : Sent(t) /\ (Keep \/ Data(1, 2 :> mode))   \* not a data packet at all
    \/ Sent("lie") /\ mode = "t" /\ mode' = "l" /\ UNCHANGED <<hdr, size, buf, state>>

Next == state = "open" /\ Len(path) < Depth /\ Packet
Spec == Init /\ [][Next]_vars

\* nothing but what was announced is ever saved, and all of it
SavedOK == state = "saved" => Verified
View == <<mode, hdr, size, buf, state>>
Emit == (path' # path) => PrintT(<<"GEN", ToJson(path')>>)
=============================================================================
