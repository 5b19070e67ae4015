----------------------------- MODULE GenBitset -----------------------------
(* Bounded instance of Bitset: model checking of its properties, and         *)
(* generation of operation sequences (printed as JSON) to be run on the code.*)
EXTENDS Bitset, TLC, Json

CONSTANTS Idx, Sizes, Queries, Depth, Emit

VARIABLE hist

Do(act, ev) == act /\ hist' = Append(hist, ev)

Init == reg = [r \in Regs |-> Empty(0)] /\ hist = <<>>
Next ==
    \/ \E r \in Regs, n \in Sizes : Do(New(r, n), [op |-> "new", r |-> r, x |-> n])
    \/ \E r \in Regs, x \in Idx :
         \/ Do(Set(r, x), [op |-> "set", r |-> r, x |-> x])
         \/ Do(Unset(r, x), [op |-> "unset", r |-> r, x |-> x])
    \/ \E r \in Regs : Do(Fill(r), [op |-> "fill", r |-> r])
    \/ \E r, d \in Regs : r # d /\ Do(CopyTo(r, d), [op |-> "copy", r |-> r, d |-> d])
    \/ \E r, d \in Regs : Do(Restore(r, d), [op |-> "restore", r |-> r, d |-> d])
    \/ \E a, b, d \in Regs :
         \/ Do(Union(a, b, d), [op |-> "union", r |-> a, b |-> b, d |-> d])
         \/ Do(Inter(a, b, d), [op |-> "inter", r |-> a, b |-> b, d |-> d])
    \/ \E r \in Regs, q \in Queries : Do(Look, [op |-> "overlap", r |-> r, q |-> q])
    \/ \E r \in Regs, k \in Sizes : Do(Look, [op |-> "first", r |-> r, x |-> k])

Spec == Init /\ [][Next]_<<reg, hist>>

View == reg
Bound == Len(hist) < Depth

\* one operation sequence per transition of the (bounded) state graph
EmitTransition == Emit = "bfs" => PrintT(<<"GEN", ToJson(hist')>>)
\* one operation sequence per simulated behaviour
EmitBehaviour == (Emit = "sim" /\ Len(hist) = Depth) => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
