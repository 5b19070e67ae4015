------------------------------- MODULE BigNat -------------------------------
(* Natural numbers beyond TLC's 32 bits: sequences of decimal digits in       *)
(* groups of four, least significant first, without leading zero groups.      *)
EXTENDS Naturals, Sequences

B == 10000
RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Big(n \div B)

RECURSIVE BLess(_, _)
BLess(a, b) ==
    IF Len(a) # Len(b) THEN Len(a) < Len(b)
    ELSE IF a = <<>> THEN FALSE
    ELSE IF a[Len(a)] # b[Len(b)] THEN a[Len(a)] < b[Len(b)]
    ELSE BLess(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1))
BLeq(a, b) == ~ BLess(b, a)

RECURSIVE BAddC(_, _, _)
BAddC(a, b, c) ==
    IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET x == (IF a = <<>> THEN 0 ELSE a[1]) + (IF b = <<>> THEN 0 ELSE b[1]) + c
         IN <<x % B>> \o BAddC(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), x \div B)
BAdd(a, b) == BAddC(a, b, 0)

RECURSIVE BTimesC(_, _, _)
BTimesC(a, k, c) ==
    IF a = <<>> THEN Big(c)
    ELSE LET x == a[1] * k + c IN <<x % B>> \o BTimesC(Tail(a), k, x \div B)
\* a * k for k <= 100000
BTimes(a, k) == IF k = 0 THEN <<>> ELSE BTimesC(a, k, 0)

\* count chunks of csize bytes make a file of size bytes
Divides(size, csize, count) ==
    /\ csize # <<>>
    /\ IF count = 0 THEN size = <<>>
       ELSE BLess(BTimes(csize, count - 1), size) /\ BLeq(size, BTimes(csize, count))
=============================================================================
