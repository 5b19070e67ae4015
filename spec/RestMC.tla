-------------------------------- MODULE RestMC ---------------------------------
(* A node at work, and what the work holds: what ends by itself lets go at once,*)
(* what others have abandoned does after a time limit. With NoLimit or NoRelease*)
(* it does not, and it must be seen that Rested or Lets does not hold.          *)
(* Also prints which pieces of work to have overlap (GEN).                      *)
EXTENDS Rest, Sequences, TLC, Json

CONSTANTS MaxWorks, NoLimit, NoRelease, Generate

VARIABLES works,   \* <<[kind, way, state, holds]>>
          hist
mcvars == <<restVars, works, hist>>

\* the ways in which work can go: to its end, not at all, wrong, or left alone
Ways == [upload |-> [done |-> {"done", "again", "instead", "late", "greedy"}, refused |-> {"unknown", "nochunk", "nofile"},
                     failed |-> {"cutfile", "lost"}, left |-> {"silent", "half", "zero"}],
         download |-> [done |-> {"done", "again"}, refused |-> {"nobody", "nometa", "badmeta"},
                       failed |-> {"lie", "short", "large", "corrupt", "flood", "burst", "full"}, left |-> {"silent", "removed"}],
         command |-> [done |-> {"list", "clean", "chims", "share", "host"}, refused |-> {"missing", "folder", "empty", "get", "nonsense"},
                      failed |-> {"junk"}, left |-> {"killed", "silent", "half"}],
         datagram |-> [done |-> {"discover", "list"}, refused |-> {"junk", "acks", "answers"}, failed |-> {}, left |-> {}]]
Needs == [upload |-> {"routines", "files"}, download |-> {"routines", "sockets", "files"}, command |-> {"routines", "sockets"}, datagram |-> {"routines"}]
Ends == {"done", "refused", "failed", "left"}

Some(S) == IF Generate \/ S = {} THEN S ELSE { CHOOSE x \in S : TRUE }
Going(i) == works[i].state = "going"
Has == [x \in Resources \cup {"memory"} |-> Cardinality({ i \in DOMAIN works : x \in works[i].holds })]

Init == RestInit /\ works = <<>> /\ hist = <<>>
Begin1 == \E kind \in DOMAIN Ways : \E e \in Ends : \E way \in Some(Ways[kind][e]) :
            /\ Len(works) < MaxWorks
            /\ Begin(Len(works) + 1)
            /\ works' = Append(works, [kind |-> kind, end |-> e, state |-> "going", holds |-> IF e = "refused" THEN {} ELSE Needs[kind]])
            /\ hist' = IF Generate THEN Append(hist, [kind |-> kind, way |-> way, over |-> going # {}]) ELSE hist
End1 == \E i \in DOMAIN works :
            /\ Going(i) /\ End(i)
            /\ works' = [works EXCEPT ![i].state = IF works[i].end = "left" THEN "left" ELSE "over",
                                      ![i].holds = IF works[i].end = "left" \/ (NoRelease /\ works[i].end = "failed") THEN @ ELSE {}]
            /\ UNCHANGED hist
Limit == \E i \in DOMAIN works :
            /\ works[i].state = "left" /\ ~ NoLimit
            /\ works' = [works EXCEPT ![i].state = "over", ![i].holds = {}]
            /\ UNCHANGED <<restVars, hist>>
Base1 == going = {} /\ works = <<>> /\ base = <<>> /\ Base(Has) /\ UNCHANGED <<works, hist>>
Next == Begin1 \/ End1 \/ Limit \/ Base1
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Limit) /\ WF_mcvars(End1)

\* nothing is left of what is over, the contract holds whenever all is over, and that comes about
Rested == (\A i \in DOMAIN works : works[i].state = "over") =>
              /\ Has = [x \in DOMAIN Has |-> 0]
              /\ base # <<>> => ENABLED Rest(Has)
Lets == []<>(\A i \in DOMAIN works : works[i].holds = {})
Emit == [][hist' # hist => PrintT(<<"GEN", ToJson(hist')>>)]_hist
=============================================================================
