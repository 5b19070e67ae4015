----------------------------- MODULE GenStored ------------------------------
(* Downloads in progress as an earlier version has stored them: numbers of    *)
(* chunks around the boundaries of words and bytes, and which are held.       *)
EXTENDS Stored, Integers, TLC, Json

VARIABLE x

Counts == {1, 2, 7, 8, 9, 16, 63, 64, 65, 127, 128, 129, 200, 256, 257, 300}
Some(n) == { {}, 0 .. n - 1, {0}, {n - 1}, 0 .. n - 2, 1 .. n - 1, { k \in 0 .. n - 1 : k % 2 = 0 }, { k \in 0 .. n - 1 : k % 3 # 0 },
             { k \in 0 .. n - 1 : k % 8 = 7 }, { k \in 0 .. n - 1 : k % 64 = 63 }, { k \in 0 .. n - 1 : k % 64 = 0 }, (0 .. n - 1) \ {n \div 2} }
           \cup { {k} : k \in { j \in 0 .. n - 1 : j \in {1, 6, 7, 8, 31, 32, 33, 55, 56, 62, 63, 64, 65, 126, 127, 128, 255, 256} } }

Init == \E n \in Counts : \E S \in Some(n) : x = [count |-> n, held |-> S]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

Faithful == Meant(Bytes(x.count, x.held)) = x
Emit == PrintT(<<"GEN", ToJson([count |-> x.count, held |-> x.held, bytes |-> Bytes(x.count, x.held)])>>)
=============================================================================
