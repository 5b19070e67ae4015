-------------------------------- MODULE Hash --------------------------------
(* The forms of a content hash: 20 bytes, a text of 40 digits, and the null    *)
(* hash. Bytes and characters are numbers.                                     *)
EXTENDS Integers, Sequences

Digit(n) == IF n < 10 THEN 48 + n ELSE 87 + n            \* the lower case one
Value(c) == CASE c \in 48 .. 57  -> c - 48
              [] c \in 65 .. 70  -> c - 55
              [] c \in 97 .. 102 -> c - 87
              [] OTHER           -> -1

Text(h) == [k \in 1 .. 2 * Len(h) |-> Digit(IF k % 2 = 1 THEN h[(k + 1) \div 2] \div 16 ELSE h[k \div 2] % 16)]
IsText(t) == Len(t) = 40 /\ \A k \in 1 .. 40 : Value(t[k]) >= 0
OfText(t) == [k \in 1 .. 20 |-> 16 * Value(t[2 * k - 1]) + Value(t[2 * k])]
IsNull(h) == \A k \in 1 .. 20 : h[k] = 255

\* what reading a text, or bytes, into a hash does
AfterText(h, t)  == IF IsText(t) THEN OfText(t) ELSE h
AfterBytes(h, b) == IF Len(b) = 20 THEN b ELSE h
=============================================================================
