------------------------------- MODULE Stored -------------------------------
(* How a catalogue is stored: index.json has the entries; the chunks that are *)
(* held of each are in a file of their own. This is the format of the first   *)
(* version, which every later one must understand, or what nodes share and    *)
(* have downloaded so far is lost when they are replaced.                     *)
EXTENDS Naturals, Sequences, FiniteSets

Words(n) == (n + 63) \div 64
RECURSIVE Weight(_, _, _)
Weight(S, lo, b) == IF b = 8 THEN 0 ELSE (IF lo + b \in S THEN 2 ^ b ELSE 0) + Weight(S, lo, b + 1)

\* the number of chunks in eight bytes, then words of 64 chunks, the chunk 64 w + b having the weight 2^b in
\* word w; all with the most significant byte first
Bytes(n, S) == [i \in 1 .. 8 + 8 * Words(n) |->
                   IF i <= 5 THEN 0
                   ELSE IF i <= 8 THEN (n \div 256 ^ (8 - i)) % 256
                   ELSE Weight(S, 64 * ((i - 9) \div 8) + 8 * (7 - ((i - 9) % 8)), 0)]

\* what bytes stand for; -1 chunks if they are none of the format
Meant(B) == LET n == B[8] + 256 * B[7] + 65536 * B[6]
            IN IF Len(B) < 8 \/ Len(B) # 8 + 8 * Words(n) THEN [count |-> 0 - 1, held |-> {}]
               ELSE [count |-> n, held |-> { k \in 0 .. n - 1 :
                        (B[9 + 8 * (k \div 64) + 7 - (k % 64) \div 8] \div 2 ^ (k % 8)) % 2 = 1 }]
=============================================================================
