----------------------------- MODULE GenUpload -----------------------------
(* Schedules of a peer: every order of requests, packets and acknowledgements *)
(* that Upload allows, up to a bound, to be repeated with a real node.         *)
EXTENDS Upload, TLC, Json

CONSTANTS Caps, Depth, MaxReq, Surplus

VARIABLES hist, asked
vars == <<files, cur, old, late, hist, asked>>

\* a file of two chunks, 3 and 1 packets long, and one of which a chunk is missing
Init == /\ files = (0 :> [count |-> 2, csize |-> 3, last |-> 1, held |-> {0, 1}]) @@ (1 :> [count |-> 2, csize |-> 2, last |-> 2, held |-> {1}])
        /\ cur = NoTransfer /\ old = NoTransfer /\ late = 0 /\ hist = <<>> /\ asked = 0

Note(e) == hist' = Append(hist, e)
Next ==
    /\ Len(hist) < Depth
    /\ \/ /\ asked < MaxReq
          /\ cur.id = 0 \/ cur.n > 0
          /\ \E fk \in {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>}, c \in Caps :
               /\ Request(asked + 1, fk[1], fk[2], c)
               /\ Note([Op |-> "req", F |-> fk[1], K |-> fk[2], Cap |-> c])
          /\ asked' = asked + 1
       \/ /\ \E n \in 0 .. 1 : Packet(cur.pos, n, cur.n = 0, cur.len, {cur.id}, {cur.id})
          /\ cur.id > 0
          /\ Note([Op |-> "take", N |-> 1])
          /\ UNCHANGED asked
       \/ /\ cur.id > 0 /\ cur.n > 0
          /\ cur.a < cur.n + Surplus
          /\ Ack
          /\ \E kind \in {"", "reversed"} : (kind = "" \/ cur.n > cur.a + 1) /\ Note([Op |-> "ack", N |-> 1, Kind |-> kind])
          /\ UNCHANGED asked
Spec == Init /\ [][Next]_vars
View == <<files, cur, old, late, asked, Len(hist)>>
Emit == (hist' # hist) => PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
