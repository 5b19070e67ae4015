------------------------------ MODULE Discovery ------------------------------
(* A node that asks the network who is there, any number of times at once.    *)
(* Answers are matched to questions by request id only. They may be lost,     *)
(* come repeatedly, late, or without having been asked for.                   *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Disc,             \* discoveries
          Ids,              \* request ids
          Kinds, Answer,    \* kinds of responses, and the one that answers a discovery
          Tags              \* what distinguishes responses

VARIABLES phase,            \* of each discovery: "idle", "waiting", "expired" or "returned"
          rid,              \* the request id of each discovery
          got,              \* the responses each of them has collected
          last              \* ghost: the latest arrival, and who was waiting for it

vars == <<phase, rid, got, last>>

Waiting == { d \in Disc : phase[d] = "waiting" }
Responses == [id : Ids, kind : Kinds, tag : Tags]
None == [id |-> "none"]

Init == /\ phase = [d \in Disc |-> "idle"]
        /\ rid = [d \in Disc |-> None]
        /\ got = [d \in Disc |-> <<>>]
        /\ last = None

\* the request goes out with an id that no other open discovery uses
Start(d, i) == /\ phase[d] = "idle"
               /\ \A e \in Disc : phase[e] \in {"waiting", "expired"} => rid[e] # i
               /\ phase' = [phase EXCEPT ![d] = "waiting"]
               /\ rid' = [rid EXCEPT ![d] = i]
               /\ last' = None
               /\ UNCHANGED got

Takers(r) == { d \in Waiting : rid[d] = r.id /\ r.kind = Answer }

\* whatever arrives goes to the discovery that waits for it, or nowhere; nobody blocks
Arrive(r) == /\ got' = [d \in Disc |-> IF d \in Takers(r) THEN Append(got[d], r) ELSE got[d]]
             /\ last' = [id |-> r.id, kind |-> r.kind, tag |-> r.tag, to |-> Takers(r)]
             /\ UNCHANGED <<phase, rid>>

Expire(d) == /\ phase[d] = "waiting"
             /\ phase' = [phase EXCEPT ![d] = "expired"]
             /\ last' = None
             /\ UNCHANGED <<rid, got>>

Return(d) == /\ phase[d] = "expired"
             /\ phase' = [phase EXCEPT ![d] = "returned"]
             /\ last' = None
             /\ UNCHANGED <<rid, got>>

Next == \/ \E d \in Disc : Expire(d) \/ Return(d) \/ \E i \in Ids : Start(d, i)
        \/ \E r \in Responses : Arrive(r)

Spec == Init /\ [][Next]_vars /\ \A d \in Disc : WF_vars(Expire(d) \/ Return(d))

\* -------------------------------------------------------------- properties
OwnOnly == \A d \in Disc : \A k \in 1 .. Len(got[d]) : got[d][k].id = rid[d] /\ got[d][k].kind = Answer
DistinctIds == \A d, e \in Disc : d # e /\ {phase[d], phase[e]} \subseteq {"waiting", "expired"} => rid[d] # rid[e]
OneTaker == last # None => Cardinality(last.to) <= 1
\* nothing changes in a discovery that is over, and arrivals never wait for anybody
Frozen == [][\A d \in Disc : phase[d] \in {"expired", "returned"} => got'[d] = got[d]]_vars
NeverBlocks == \A r \in Responses : ENABLED Arrive(r)
Returns == \A d \in Disc : phase[d] = "waiting" ~> phase[d] = "returned"

Small == \A d \in Disc : Len(got[d]) <= 2
=============================================================================
