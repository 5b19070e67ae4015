----------------------------- MODULE GenDaemon -----------------------------
(* Every discovery question about a small file in every state of download,    *)
(* with an answer that the specification allows.                              *)
EXTENDS Daemon, TLC, Json

CONSTANTS N, M          \* chunks of the file; highest bound in questions

VARIABLE q

H == [k \in 1 .. 20 |-> k]
E(S) == [hash |-> H, name |-> <<120>>, size |-> <<0, 0, 0, 0, 0, 0, 0, N>>, csize |-> <<0, 0, 0, 1>>, count |-> N, held |-> S]
Queries == {<<>>} \cup { <<a, b>> : a, b \in 0 .. M }
           \cup { x \in { <<a, b, c, d>> : a, b, c, d \in 0 .. M } : x[1] <= x[2] /\ x[2] < x[3] /\ x[3] <= x[4] }
           \cup { <<a>> : a \in {0, 2} } \cup { <<a, b, c>> : a \in {0, 1}, b \in {1, 2}, c \in {2, M} }
           \cup {<<3, 4, 0, 1>>, <<0, 3, 1, 2>>}

Init == /\ \E S \in SUBSET (0 .. N - 1) : cat = {E(S)}
        /\ q \in Queries
        /\ addr = <<10, 77, 0, 1>> /\ open = FALSE
Next == UNCHANGED <<addr, cat, open, q>>
Spec == Init /\ [][Next]_<<addr, cat, open, q>>

TheHeld == Held(H)
\* the canonical answer is a correct answer, survives the wire, and no other set is one
Answer == RunsFrom(TheHeld \cap Asked(IF q = <<>> THEN <<0, M>> ELSE q))
AnswerOK ==
    LET r == [t |-> DiscoverRes, id |-> 7, addr |-> addr, port |-> Port, chunks |-> Answer]
        req == [t |-> DiscoverReq, id |-> 7, hash |-> H, chunks |-> q]
    IN WellFormedQuery(q) =>
         /\ AnswersDiscover(Decode(Encode(r)), Decode(Encode(req)))
         /\ \A x \in 0 .. M : Asked(IF q = <<>> THEN <<0, M>> ELSE q) \cap {x} # {} =>
              (~ AnswersDiscover([r EXCEPT !.chunks = RunsFrom((Members(Answer) \cup {x}) \ (Members(Answer) \cap {x}))], req))
Emit == PrintT(<<"GEN", ToJson([held |-> RunsFrom(TheHeld), q |-> q])>>)
=============================================================================
