------------------------------- MODULE Bitset -------------------------------
(* The progress bitset, seen as what it stands for: a set of indices with a   *)
(* size. Registers hold bitsets so that copies, unions and intersections, and *)
(* their independence from their operands, can be expressed.                  *)
EXTENDS Ranges

CONSTANTS Regs          \* register names

VARIABLE reg            \* [Regs -> bitset]

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

Empty(n) == [s |-> {}, n |-> n]

\* ------------------------------------------------------------- operations
SetOp(b, x)   == [s |-> b.s \cup {x}, n |-> MaxOf(b.n, x + 1)]
UnsetOp(b, x) == [s |-> b.s \ {x}, n |-> b.n]
FillOp(b)     == [s |-> 0 .. b.n - 1, n |-> b.n]
UnionOp(a, b) == [s |-> a.s \cup b.s, n |-> MaxOf(a.n, b.n)]
InterOp(a, b) == [s |-> a.s \cap b.s, n |-> MinOf(a.n, b.n)]

IsFull(b)  == b.s = 0 .. b.n - 1
Missing(b) == (0 .. b.n - 1) \ b.s

New(r, n)      == reg' = [reg EXCEPT ![r] = Empty(n)]
Set(r, x)      == reg' = [reg EXCEPT ![r] = SetOp(@, x)]
Unset(r, x)    == reg' = [reg EXCEPT ![r] = UnsetOp(@, x)]
Fill(r)        == reg' = [reg EXCEPT ![r] = FillOp(@)]
CopyTo(r, d)   == reg' = [reg EXCEPT ![d] = reg[r]]
Union(a, b, d) == reg' = [reg EXCEPT ![d] = UnionOp(reg[a], reg[b])]
Inter(a, b, d) == reg' = [reg EXCEPT ![d] = InterOp(reg[a], reg[b])]
\* store the bitset and load it again: an equal bitset
Restore(r, d)  == CopyTo(r, d)
\* ask or clear out of bounds, query in any way: nothing happens
Look           == UNCHANGED reg

\* ------------------------------------------------------------- properties
BitsetOK(b) == /\ b.n \in Nat
               /\ b.s \subseteq 0 .. b.n - 1
TypeOK == \A r \in Regs : BitsetOK(reg[r])

\* size, count and fullness agree with the set
Agrees == \A r \in Regs :
            /\ IsFull(reg[r]) <=> Cardinality(reg[r].s) = reg[r].n
            /\ IsFull(reg[r]) <=> Missing(reg[r]) = {}
            /\ Cardinality(reg[r].s) + Cardinality(Missing(reg[r])) = reg[r].n

\* every set has exactly one list of maximal runs, and it denotes the set
RunsOK == \A r \in Regs :
            /\ IsRunsOf(RunsFrom(reg[r].s), reg[r].s)
            /\ IsOverlap(RunsFrom(reg[r].s), <<0, reg[r].n>>, reg[r].s)

\* an operation changes its destination only
OnlyDest(d) == \A r \in Regs \ {d} : reg'[r] = reg[r]
=============================================================================
