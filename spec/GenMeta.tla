------------------------------ MODULE GenMeta ------------------------------
(* What a peer may say about a file: dimensions around all boundaries of      *)
(* soundness, with the verdict of the specification, and file names made of   *)
(* every sequence of up to three components.                                  *)
EXTENDS Naturals, Sequences, BigNat, TLC, Json

VARIABLE m

Max32 == <<7295, 9496, 42>>          \* 2^32 - 1
Max64 == <<1615, 955, 737, 6744, 1844>>   \* 2^64 - 1
Half64 == <<5808, 5477, 368, 3372, 922>> \* 2^63
Csizes == {<<>>, <<1>>, <<2>>, <<7>>, Big(1000), Big(4194304), Max32}
Counts == {0, 1, 2, 3, 65535, 65536, 65537, 100000}

\* sizes around count chunks
Sizes(c, n) ==
    LET full == BTimes(c, n)
    IN {full, BAdd(full, <<1>>)}
       \cup (IF n > 0 /\ full # <<>> THEN LET before == BTimes(c, n - 1) IN {before, BAdd(before, <<1>>)} ELSE {})
       \cup {Max64, Half64, <<>>}

Sound(size, c, n) == n <= 65536 /\ Divides(size, c, n)
Dims == UNION { UNION { [kind : {"dims"}, size : Sizes(c, n), csize : {c}, count : {n}] : c \in Csizes } : n \in Counts }

Parts == {"..", ".", "", "x", "NUL", "SELF"}
Names == { <<a>> : a \in Parts } \cup { <<a, b>> : a \in Parts, b \in Parts } \cup { <<a, b, c>> : a \in Parts, b \in Parts, c \in Parts }

\* the last component that is not empty names the file
RECURSIVE Last(_)
Last(n) == IF n = <<>> THEN "" ELSE IF n[Len(n)] = "" THEN Last(SubSeq(n, 1, Len(n) - 1)) ELSE n[Len(n)]
Usable(n) == Last(n) \in {"x", "SELF"} /\ \A k \in 1 .. Len(n) : n[k] # "NUL"

Init == m \in { [kind |-> "dims", size |-> d.size, csize |-> d.csize, count |-> d.count, sound |-> Sound(d.size, d.csize, d.count)] : d \in Dims }
           \cup { [kind |-> "name", parts |-> n, sound |-> Usable(n)] : n \in Names }
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
Emit == PrintT(<<"GEN", ToJson(m)>>)
\* soundness is what it should be: a number of chunks fits exactly one range of sizes
Unique == m.kind = "dims" /\ m.sound => \A n \in Counts \ {m.count} : ~ Sound(m.size, m.csize, n)
=============================================================================
