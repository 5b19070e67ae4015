------------------------------- MODULE Fetch -------------------------------
(* Design of a node that downloads: one worker per request of the user, which  *)
(* asks all peers again and again and gets one chunk at a time, while the user *)
(* may remove the file and ask for it anew, and peers may fail or lie. Every   *)
(* step is held against the contract (Download.tla): if the contract does not  *)
(* allow it, `bad` becomes true.                                               *)
EXTENDS Download, TLC, Json

CONSTANTS NChunks, Peers, Has,   \* Has[p]: chunks of peer p (1, 2, ..)
          Gets, Removes, Fails, Lies, Gen

F == 0
HasMC == 1 :> {0, 1} @@ 2 :> {1} @@ 3 :> {0}
Truth == [k \in 1 .. NChunks |-> 10 + k]
All == 0 .. NChunks - 1
W == 1 .. Gets

VARIABLES listed, held,   \* the catalogue
          pc,             \* [w -> where worker w is]
          pre,            \* did the catalogue have the file when w began
          todo,           \* peers that answered w's question and were not turned to yet
          att,            \* how often w asked for a chunk
          cur,            \* [w -> [p, k, d] of its transfer]
          lock,           \* the worker that transfers, or 0
          removes, fails, lies, bad,
          sched, at, cnt  \* schedule of the user's actions, as a test can follow it

cat  == <<listed, held>>
work == <<pc, pre, todo, att, cur, lock>>
rest == <<removes, fails, lies>>
vars == <<dlVars, cat, work, rest, bad, sched, at, cnt>>

Init == /\ dl = (F :> [size |-> NChunks, csize |-> 1, truth |-> Truth, listed |-> FALSE, held |-> <<>>,
                       may |-> FALSE, gets |-> 0, pend |-> 0, meta |-> {}, offers |-> <<>>, asked |-> {},
                       announced |-> {}, removed |-> FALSE, left |-> 0])
        /\ peers = [p \in Peers |-> Lies = 0]
        /\ listed = FALSE /\ held = <<>>
        /\ pc = [w \in W |-> "idle"] /\ pre = [w \in W |-> FALSE] /\ todo = [w \in W |-> {}]
        /\ att = [w \in W |-> [k \in All |-> 0]]
        /\ cur = [w \in W |-> [p |-> 0, k |-> 0, d |-> 0]] /\ lock = 0
        /\ removes = 0 /\ fails = 0 /\ lies = 0 /\ bad = FALSE
        /\ sched = <<>> /\ at = "start" /\ cnt = [disc |-> 0, open |-> 0, packet |-> 0]

\* the step is also one of the contract
Contract(A) == \/ A /\ UNCHANGED bad
               \/ ~ ENABLED A /\ bad' = TRUE /\ UNCHANGED dlVars
NoContract == UNCHANGED <<dlVars, bad>>

\* what the user does is done right after what happened last
UserDoes(op) == /\ IF Gen THEN sched' = Append(sched, [Op |-> op, On |-> at, N |-> IF at = "start" THEN 0 ELSE cnt[at]])
                   ELSE UNCHANGED sched
                /\ UNCHANGED <<at, cnt>>
Seen(what) == IF Gen THEN at' = what /\ cnt' = [cnt EXCEPT ![what] = @ + 1] /\ UNCHANGED sched
              ELSE UNCHANGED <<sched, at, cnt>>
Unseen == UNCHANGED <<sched, at, cnt>>
Goto(w, l) == pc' = [pc EXCEPT ![w] = l]

Request(w) ==
    /\ pc[w] = "idle" /\ \A v \in 1 .. w - 1 : pc[v] # "idle"
    /\ Goto(w, "ask") /\ pre' = [pre EXCEPT ![w] = listed]
    /\ UserDoes("get") /\ Contract(Get(F))
    /\ UNCHANGED <<cat, todo, att, cur, lock, rest>>

Remove1 == /\ listed /\ removes < Removes
           /\ listed' = FALSE /\ held' = <<>> /\ removes' = removes + 1
           /\ UserDoes("remove") /\ Contract(Remove(F))
           /\ UNCHANGED <<work, fails, lies>>

\* the first discovery of a request: does anybody have the file
Ask(w) == /\ pc[w] = "ask" /\ Goto(w, "heard0") /\ Seen("disc") /\ Contract(Discovery(F))
          /\ UNCHANGED <<cat, pre, todo, att, cur, lock, rest>>
Heard0(w) == /\ pc[w] = "heard0" /\ Goto(w, "register") /\ Unseen
             /\ NoContract
             /\ UNCHANGED <<cat, pre, todo, att, cur, lock, rest>>
\* the file gets an entry, unless it had one before; the user is told
Register(w) == /\ pc[w] = "register" /\ Unseen
               /\ IF pre[w] THEN UNCHANGED cat /\ Goto(w, "told")
                  ELSE IF listed THEN UNCHANGED cat /\ Goto(w, "refused")
                  ELSE listed' = TRUE /\ held' = <<>> /\ Goto(w, "told")
               /\ IF ~ pre[w] /\ ~ listed THEN Contract(Shows(F, <<>>)) ELSE NoContract
               /\ UNCHANGED <<pre, todo, att, cur, lock, rest>>
Tell(w) == /\ pc[w] \in {"told", "refused"} /\ Unseen
           /\ Contract(Got(F, pc[w] = "told", TRUE, TRUE, <<>>))
           /\ Goto(w, IF pc[w] = "told" THEN "loop" ELSE "end")
           /\ UNCHANGED <<cat, pre, todo, att, cur, lock, rest>>

Full == listed /\ DOMAIN held = All
Missing == IF listed THEN All \ DOMAIN held ELSE {}
Loop(w) == /\ pc[w] = "loop" /\ Unseen
           /\ Goto(w, IF Full THEN "verify" ELSE IF Missing = {} THEN "end" ELSE "query")
           /\ NoContract /\ UNCHANGED <<cat, pre, todo, att, cur, lock, rest>>
Query(w) == /\ pc[w] = "query" /\ Goto(w, "heard") /\ Seen("disc") /\ Contract(Discovery(F))
            /\ UNCHANGED <<cat, pre, todo, att, cur, lock, rest>>
\* answers arrive. Which of them: all, or some are lost
RECURSIVE Offers(_)
Offers(ps) == IF ps = {} THEN {}
              ELSE LET p == CHOOSE x \in ps : TRUE IN { <<p, k>> : k \in Has[p] } \cup Offers(ps \ {p})
Heard(w) == /\ pc[w] = "heard" /\ Unseen /\ Goto(w, "turn")
            /\ \E ps \in {Peers} \cup (IF fails < Fails THEN SUBSET Peers ELSE {}) :
                  /\ todo' = [todo EXCEPT ![w] = ps]
                  /\ fails' = IF ps = Peers THEN fails ELSE fails + 1
                  /\ dl' = [dl EXCEPT ![F].offers[Len(dl[F].offers)] = @ \cup Offers(ps)]
                  /\ UNCHANGED <<peers, bad>>
            /\ UNCHANGED <<cat, pre, att, cur, lock, removes, lies>>

\* turn to the next peer, holding the lock: for a chunk that is missing now, and was not tried more often than others
Turn(w) == /\ pc[w] = "turn" /\ lock = 0 /\ Unseen
           /\ IF todo[w] = {} THEN /\ Goto(w, "loop") /\ UNCHANGED <<todo, att, cur, lock>>
              ELSE \E p \in todo[w] :
                     LET want == Missing \cap Has[p]
                     IN /\ todo' = [todo EXCEPT ![w] = @ \ {p}]
                        /\ IF want = {} THEN UNCHANGED <<pc, att, cur, lock>>
                           ELSE LET k == CHOOSE x \in want : \A y \in want : att[w][x] < att[w][y] \/ (att[w][x] = att[w][y] /\ x <= y)
                                IN /\ att' = [att EXCEPT ![w][k] = @ + 1]
                                   /\ cur' = [cur EXCEPT ![w] = [p |-> p, k |-> k, d |-> 0]]
                                   /\ lock' = w /\ Goto(w, "open")
           /\ NoContract /\ UNCHANGED <<cat, pre, rest>>
Open1(w) == /\ pc[w] = "open" /\ Seen("open") /\ Contract(Open(F, cur[w].p, cur[w].k))
            /\ Goto(w, "wait") /\ UNCHANGED <<cat, pre, todo, att, cur, lock, rest>>
\* the peer sends the chunk, or something else, or too little of it
Arrives(w) == /\ pc[w] = "wait" /\ Seen("packet")
              /\ \E lie \in (IF lies < Lies THEN {0, 100} ELSE {0}) :
                   LET d == Truth[cur[w].k + 1] + lie
                   IN /\ cur' = [cur EXCEPT ![w].d = d]
                      /\ lies' = IF lie > 0 THEN lies + 1 ELSE lies
                      /\ Contract(Announce(F, cur[w].k, d, 1))
              /\ Goto(w, "save") /\ UNCHANGED <<cat, pre, todo, att, lock, removes, fails>>
Breaks(w) == /\ pc[w] \in {"wait", "save"} /\ fails < Fails /\ fails' = fails + 1 /\ Unseen
             /\ Goto(w, "turn") /\ lock' = 0 /\ NoContract
             /\ UNCHANGED <<cat, pre, todo, att, cur, removes, lies>>
Save(w) == /\ pc[w] = "save" /\ Unseen /\ Goto(w, "turn") /\ lock' = 0
           /\ LET k == cur[w].k IN
              IF listed /\ k \notin DOMAIN held
              THEN /\ held' = [j \in DOMAIN held \cup {k} |-> IF j = k THEN cur[w].d ELSE held[j]]
                   /\ Contract(Shows(F, k :> cur[w].d)) /\ UNCHANGED listed
              ELSE UNCHANGED cat /\ NoContract
           /\ UNCHANGED <<pre, todo, att, cur, rest>>
\* all chunks are there: do they make up the file
Verify(w) == /\ pc[w] = "verify" /\ Unseen /\ Goto(w, "end")
             /\ IF Full /\ (\E k \in All : held[k] # Truth[k + 1])
                THEN listed' = FALSE /\ held' = <<>> /\ Contract(ShowsNot(F))
                ELSE UNCHANGED cat /\ NoContract
             /\ UNCHANGED <<pre, todo, att, cur, lock, rest>>

Work(w) == \/ Ask(w) \/ Heard0(w) \/ Register(w) \/ Tell(w) \/ Loop(w) \/ Query(w) \/ Heard(w) \/ Turn(w) \/ Open1(w)
           \/ Arrives(w) \/ Breaks(w) \/ Save(w) \/ Verify(w)
Next == Remove1 \/ \E w \in W : Request(w) \/ Work(w)
Spec == Init /\ [][Next]_vars
Fair == /\ \A w \in W : WF_vars(Ask(w) \/ Heard0(w) \/ Register(w) \/ Tell(w) \/ Loop(w) \/ Query(w) \/ Heard(w) \/ Open1(w) \/ Arrives(w) \/ Save(w) \/ Verify(w))
        /\ \A w \in W : SF_vars(Turn(w))
        /\ WF_vars(Request(1))
LiveSpec == Spec /\ Fair

\* ------------------------------------------------------------- properties
Keeps == ~ bad
Same == ~ bad => (listed = dl[F].listed /\ (listed => held = dl[F].held))
OneTransfer == \A w \in W : pc[w] \in {"open", "wait", "save"} => lock = w
\* all workers come to an end, with the file if it could be had and is wanted
Ends == <>[](\A w \in W : pc[w] \in {"idle", "end"})
Gets1 == (Removes = 0 /\ Lies = 0) => <>[](Full)
Bound == \A w \in W, k \in All : att[w][k] <= 2 + Fails + Lies

\* a schedule for a test: whenever the user acts
Emit == (Gen /\ sched' # sched) => PrintT(<<"GEN", ToJson(sched')>>)
Bounded == cnt.disc <= 4 /\ cnt.open <= 4 /\ cnt.packet <= 4
=============================================================================
