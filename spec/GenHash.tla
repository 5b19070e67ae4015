------------------------------ MODULE GenHash ------------------------------
(* Hashes and texts at the edges of what is one, and the laws of their forms  *)
EXTENDS Hash, TLC, Json, FiniteSets

VARIABLE x

Rep(v, n) == [k \in 1 .. n |-> v]
Put(s, k, v) == [s EXCEPT ![k] = v]
Base == [k \in 1 .. 20 |-> (k * 53 + 7) % 256]
Hashes == {Base, Rep(0, 20), Rep(255, 20)}
          \cup { Put(Rep(255, 20), k, v) : k \in 1 .. 20, v \in {0, 127, 254} }   \* nearly the null hash
          \cup { Put(Rep(0, 20), k, v) : k \in 1 .. 20, v \in {1, 9, 10, 15, 16, 128, 240, 255} }
Marks == {0, 9, 10, 13, 32, 45, 47, 48, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103, 120, 127, 128, 195, 255}
Texts == { Put(Text(Base), k, c) : k \in {1, 2, 17, 20, 21, 39, 40}, c \in Marks }
         \cup { SubSeq(Text(Base) \o Text(Base) \o Text(Base), 1, n) : n \in 0 .. 120 }
         \cup { [k \in 1 .. 40 |-> IF Text(Base)[k] > 96 /\ k % m = 0 THEN Text(Base)[k] - 32 ELSE Text(Base)[k]] : m \in {1, 2, 3, 7} }
         \cup { <<48, 120>> \o Text(Base), <<32>> \o Text(Base), Text(Base) \o <<10>>, Text(Base) \o <<0>>, <<48, 120>> \o SubSeq(Text(Base), 1, 38) }
Bytes == { SubSeq(Base \o Base \o Base, 1, n) : n \in 0 .. 60 } \cup Hashes

Init == x \in [kind : {"hash"}, v : Hashes] \cup [kind : {"text"}, v : Texts] \cup [kind : {"bytes"}, v : Bytes]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

\* the text of a hash is one, stands for it, and for no other hash
Faithful == x.kind = "hash" => IsText(Text(x.v)) /\ OfText(Text(x.v)) = x.v
Canonical == x.kind = "text" /\ IsText(x.v) => LET t == Text(OfText(x.v)) IN \A k \in 1 .. 40 : Value(t[k]) = Value(x.v[k])
OneNull == x.kind = "hash" => (IsNull(x.v) <=> x.v = Rep(255, 20))
Emit == PrintT(<<"GEN", ToJson(x)>>)
=============================================================================
