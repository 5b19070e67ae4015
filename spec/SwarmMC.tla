------------------------------- MODULE SwarmMC -------------------------------
(* Every distribution of the chunks of a file over the nodes, and every order  *)
(* of requests, kills and restarts: all requests complete. Also the generator  *)
(* of scenarios for real nodes.                                                *)
EXTENDS Swarm, TLC, Json
CONSTANTS Nodes, NChunks, Kills, Depth
F == 0
VARIABLES kills, hist, first
vars == <<swVars, kills, hist, first>>

Dists == { h \in [Nodes -> SUBSET (0 .. NChunks - 1)] : UNION { h[n] : n \in Nodes } = 0 .. NChunks - 1 }
Init == /\ count = (F :> NChunks)
        /\ \E h \in Dists : has = [n \in Nodes |-> (F :> h[n])] /\ first = (IF Depth > 0 THEN [n \in Nodes |-> h[n]] ELSE <<>>)
        /\ want = {} /\ ever = {} /\ up = Nodes /\ kills = 0 /\ hist = <<>>

Note(op, n) == hist' = IF Depth > 0 THEN Append(hist, [op |-> op, n |-> n]) ELSE hist
Next == \/ \E n \in Nodes : Get(n, F) /\ <<n, F>> \notin want /\ Note("get", n) /\ UNCHANGED <<kills, first>>
        \/ \E n \in Nodes : kills < Kills /\ Kill(n) /\ kills' = kills + 1 /\ Note("kill", n) /\ UNCHANGED first
        \/ \E n \in Nodes : Start(n) /\ Note("start", n) /\ UNCHANGED <<kills, first>>
        \/ \E n \in Nodes, k \in 0 .. NChunks - 1 : Fetch(n, F, k) /\ Note("fetch", n) /\ UNCHANGED <<kills, first>>
Spec == /\ Init /\ [][Next]_vars
        /\ \A n \in Nodes : WF_vars(Start(n) /\ Note("start", n) /\ UNCHANGED <<kills, first>>)
        /\ \A n \in Nodes : SF_vars(\E k \in 0 .. NChunks - 1 : Fetch(n, F, k) /\ Note("fetch", n) /\ UNCHANGED <<kills, first>>)
Completes == \A n \in Nodes : (<<n, F>> \in want) ~> (Complete(n, F) \/ <<n, F>> \notin want)
Emit == Len(hist) = Depth => PrintT(<<"GEN", ToJson([first |-> [n \in Nodes |-> first[n]], hist |-> hist])>>)
Stop == Len(hist) < Depth
=============================================================================
