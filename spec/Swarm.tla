-------------------------------- MODULE Swarm --------------------------------
(* A network of nodes that hold chunks of files and get what they are asked    *)
(* for from each other. Nodes are killed and started again, cables are cut.    *)
EXTENDS Naturals, FiniteSets, Sequences

VARIABLES count,   \* [file -> number of its chunks]
          has,     \* [node -> [file -> chunks it holds]]
          want,    \* <<node, file>>: requested since the node was started
          ever,    \* .. or before
          up       \* nodes that run

swVars == <<count, has, want, ever, up>>
Chunks(f) == 0 .. count[f] - 1
Complete(n, f) == has[n][f] = Chunks(f)

Get(n, f) == n \in up /\ want' = want \cup {<<n, f>>} /\ ever' = ever \cup {<<n, f>>} /\ UNCHANGED <<count, has, up>>
\* a request that was made before the node went down ends with it
Kill(n) == n \in up /\ up' = up \ {n} /\ want' = { w \in want : w[1] # n } /\ UNCHANGED <<count, has, ever>>
Start(n) == n \notin up /\ up' = up \cup {n} /\ UNCHANGED <<count, has, want, ever>>

\* Chunks are found to be held that were not. Somebody else had them, and they were asked for
Gain(n, f, S) ==
    /\ (<<n, f>> \in ever \/ S = {}) = TRUE
    /\ S \cap has[n][f] = {}
    /\ S \subseteq UNION { has[m][f] : m \in DOMAIN has \ {n} }
    /\ has' = [has EXCEPT ![n][f] = @ \cup S]
    /\ UNCHANGED <<count, want, ever, up>>

\* a chunk arrives
Fetch(n, f, k) == /\ n \in up /\ <<n, f>> \in want
                  /\ (\E m \in up \ {n} : k \in has[m][f]) = TRUE
                  /\ Gain(n, f, {k})

\* enough time has passed
Settled(n) == n \in up /\ (\A w \in want : w[1] = n => Complete(n, w[2])) /\ UNCHANGED swVars

SwOK == /\ \A n \in DOMAIN has : \A f \in DOMAIN count : has[n][f] \subseteq Chunks(f)
        /\ want \subseteq ever
        /\ \A w \in want : w[1] \in up
=============================================================================
