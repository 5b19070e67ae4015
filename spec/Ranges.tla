------------------------------- MODULE Ranges -------------------------------
(* Sets of indices and their denotation as lists of inclusive ranges, which  *)
(* is how held and missing chunks are reported everywhere in the system.     *)
(* A list of ranges is a flat sequence of bounds <<start1, end1, start2, ..>>*)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Members(rs) == UNION { rs[2*k-1] .. rs[2*k] : k \in 1 .. (Len(rs) \div 2) }

EvenLen(rs) == Len(rs) % 2 = 0

\* each range is non-empty
Proper(rs) == \A k \in 1 .. (Len(rs) \div 2) : rs[2*k-1] <= rs[2*k]

\* ranges are in increasing order and do not overlap
SortedDisjoint(rs) ==
    /\ EvenLen(rs)
    /\ Proper(rs)
    /\ \A k \in 1 .. (Len(rs) \div 2) - 1 : rs[2*k] < rs[2*k+1]

\* .. and no two of them touch, so that there is exactly one such list per set
Maximal(rs) ==
    /\ SortedDisjoint(rs)
    /\ \A k \in 1 .. (Len(rs) \div 2) - 1 : rs[2*k] + 1 < rs[2*k+1]

\* rs is the list of maximal runs of S
IsRunsOf(rs, S) == Maximal(rs) /\ Members(rs) = S

\* The (unique) list of maximal runs of S, constructively. Used for generation.
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN <<m>> \o SortedSeq(S \ {m})
RECURSIVE RunsFrom(_)
RunsFrom(S) ==
    IF S = {} THEN <<>>
    ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
             E == { e \in S : m..e \subseteq S }
             e == CHOOSE x \in E : \A y \in E : x >= y
         IN <<m, e>> \o RunsFrom(S \ (m..e))

\* what a list of query ranges asks for; reversed bounds and a dangling last
\* bound ask for nothing
Asked(q) == UNION { q[2*k-1] .. q[2*k] : k \in 1 .. (Len(q) \div 2) }

\* A well-formed query: sorted, disjoint ranges
WellFormedQuery(q) == SortedDisjoint(q)

\* rs is the correct answer to query q about set S: sorted, disjoint, maximal
\* within every queried range, and denoting exactly the members asked for. (Two
\* queried ranges that touch may be answered separately or merged.)
IsOverlap(rs, q, S) ==
    LET in(k) == S \cap (q[2*k-1] .. q[2*k])
    IN /\ SortedDisjoint(rs)
       /\ Members(rs) = S \cap Asked(q)
       /\ \A k \in 1 .. (Len(rs) \div 2) - 1 :
            rs[2*k] + 1 = rs[2*k+1] =>
              \* a touching pair must be split at a boundary of the query
              \E j \in 1 .. (Len(q) \div 2) : q[2*j-1] = rs[2*k+1]

\* For malformed queries only: never anything that is not in the set
IsHarmless(rs, S) == \A k \in 1 .. (Len(rs) \div 2) : rs[2*k-1] > rs[2*k] \/ (rs[2*k-1]..rs[2*k]) \subseteq S

\* the k smallest members of M as a sorted sequence
IsFirst(seq, k, M) ==
    LET n == IF k < Cardinality(M) THEN k ELSE Cardinality(M)
        R == { seq[j] : j \in 1 .. Len(seq) }
    IN /\ Len(seq) = n
       /\ \A j \in 1 .. Len(seq) - 1 : seq[j] < seq[j+1]
       /\ R \subseteq M
       \* and no other member is below the last of them
       /\ n > 0 => { x \in 0 .. seq[n] : x \in M } = R
=============================================================================
