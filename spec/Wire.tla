-------------------------------- MODULE Wire --------------------------------
(* The datagrams that nodes exchange: every message type with its fields, the *)
(* byte layout, and what a receiver makes of an arbitrary byte string.        *)
(* 32- and 64-bit fields are sequences of bytes (big-endian), because they    *)
(* exceed TLC's integers; hashes, addresses and names are byte sequences too. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

DiscoverReq == 0
DiscoverRes == 1
ListReq     == 2
ListRes     == 3
OpenReq     == 4
Data        == 5
Ack         == 6

Byte == 0 .. 255
U16(x) == <<x \div 256, x % 256>>
Flat16(c) == [k \in 1 .. 2 * Len(c) |->
                 IF k % 2 = 1 THEN c[(k + 1) \div 2] \div 256 ELSE c[k \div 2] % 256]

MaxBounds == 255        \* bounds of chunk ranges that fit one message
MaxName   == 255        \* bytes of a file name that fit one message

ClipName(n) == SubSeq(n, 1, IF Len(n) > MaxName THEN MaxName ELSE Len(n))

\* the chunk lists that may be sent in place of c: c itself if it fits, else some
\* leading part of it that consists of whole ranges
ClipLens(c) == IF Len(c) <= MaxBounds THEN {Len(c)}
               ELSE { 2 * k : k \in 1 .. (MaxBounds \div 2) }

\* the messages that may arrive when m is sent
Arrivals(m) ==
    CASE m.t \in {DiscoverReq, DiscoverRes} ->
            { [m EXCEPT !.chunks = SubSeq(@, 1, n)] : n \in ClipLens(m.chunks) }
      [] m.t = ListRes ->
            { [m EXCEPT !.files = [k \in DOMAIN @ |-> [@[k] EXCEPT !.name = ClipName(@)]]] }
      [] OTHER -> {m}

EncodeEntry(f) == f.size \o f.count \o f.csize \o f.have \o f.hash \o <<Len(f.name)>> \o f.name

\* layout of a message that fits
Encode(m) ==
    CASE m.t = DiscoverReq -> <<0>> \o U16(m.id) \o m.hash \o <<Len(m.chunks)>> \o Flat16(m.chunks)
      [] m.t = DiscoverRes -> <<1>> \o U16(m.id) \o m.addr \o U16(m.port) \o <<Len(m.chunks)>> \o Flat16(m.chunks)
      [] m.t = ListReq     -> <<2>> \o U16(m.id) \o m.hash
      [] m.t = ListRes     -> <<3>> \o U16(m.id) \o U16(Len(m.files))
                                \o FoldLeft(LAMBDA acc, f : acc \o EncodeEntry(f), <<>>, m.files)
      [] m.t = OpenReq     -> <<4>> \o m.hash \o U16(m.chunk) \o U16(m.cap)
      [] m.t = Data        -> <<5>> \o m.off \o m.data
      [] m.t = Ack         -> <<6>> \o m.off

Error == [t |-> -1]

\* ---------------------------------------------------------------- decoding
At16(b, p) == b[p] * 256 + b[p + 1]
Sub(b, p, n) == SubSeq(b, p, p + n - 1)
List16(b, p, n) == [k \in 1 .. n |-> At16(b, p + 2 * (k - 1))]

EntryHead == 41         \* bytes of an entry before its name, name length included

\* the positions at which the n entries from position p on start, as far as they exist
RECURSIVE Entries(_, _, _)
Entries(b, p, n) ==
    IF n = 0 THEN <<>>
    ELSE IF p + EntryHead - 1 > Len(b) \/ p + EntryHead - 1 + b[p + EntryHead - 1] > Len(b)
         THEN <<Error>>
         ELSE LET l == b[p + EntryHead - 1]
              IN <<[size |-> Sub(b, p, 8), count |-> Sub(b, p + 8, 4), csize |-> Sub(b, p + 12, 4),
                    have |-> Sub(b, p + 16, 4), hash |-> Sub(b, p + 20, 20),
                    name |-> Sub(b, p + EntryHead, l)]>>
                 \o Entries(b, p + EntryHead + l, n - 1)

\* what a receiver makes of bytes b; anything after a complete message is padding
Decode(b) ==
    IF Len(b) = 0 THEN Error ELSE
    CASE b[1] = 0 -> IF Len(b) < 24 \/ Len(b) < 24 + 2 * b[24] THEN Error
                     ELSE [t |-> 0, id |-> At16(b, 2), hash |-> Sub(b, 4, 20), chunks |-> List16(b, 25, b[24])]
      [] b[1] = 1 -> IF Len(b) < 10 \/ Len(b) < 10 + 2 * b[10] THEN Error
                     ELSE [t |-> 1, id |-> At16(b, 2), addr |-> Sub(b, 4, 4), port |-> At16(b, 8),
                           chunks |-> List16(b, 11, b[10])]
      [] b[1] = 2 -> IF Len(b) < 23 THEN Error
                     ELSE [t |-> 2, id |-> At16(b, 2), hash |-> Sub(b, 4, 20)]
      [] b[1] = 3 -> IF Len(b) < 5 THEN Error
                     ELSE LET es == Entries(b, 6, At16(b, 4))
                          IN IF \E k \in DOMAIN es : es[k] = Error THEN Error
                             ELSE [t |-> 3, id |-> At16(b, 2), files |-> es]
      [] b[1] = 4 -> IF Len(b) < 25 THEN Error
                     ELSE [t |-> 4, hash |-> Sub(b, 2, 20), chunk |-> At16(b, 22), cap |-> At16(b, 24)]
      [] b[1] = 6 -> IF Len(b) < 5 THEN Error
                     ELSE [t |-> 6, off |-> Sub(b, 2, 4)]
      [] OTHER -> Error     \* data packets only make sense within a transfer

\* Packets within a transfer
DecodeData(b) == [t |-> Data, off |-> Sub(b, 2, 4), data |-> SubSeq(b, 6, Len(b))]
\* the first packet announces the hash and the length of everything that follows
DecodeFirst(p) == [hash |-> Sub(p.data, 1, 20), size |-> Sub(p.data, 21, 4), data |-> SubSeq(p.data, 25, Len(p.data))]

\* bytes that a sender may put on the wire for m
IsEncoding(b, m) ==
    \E a \in Arrivals(m) :
        IF m.t = Data THEN b = Encode(a)
        ELSE LET e == Encode(a) IN Len(b) >= Len(e) /\ SubSeq(b, 1, Len(e)) = e

\* -------------------------------------------------------------- properties
RoundTrip(m) == m.t # Data =>
    \A a \in Arrivals(m) : /\ Decode(Encode(a)) = a
                           /\ Decode(Encode(a) \o <<0, 7, 255>>) = a
DataRoundTrip(m) == m.t = Data => DecodeData(Encode(m)) = m
\* a message that was cut short is never taken for a message
NoPrefix(m) == m.t # Data =>
    \A a \in Arrivals(m) : LET e == Encode(a) IN
        \A n \in {0, 1, 2, 4, Len(e) \div 2, Len(e) - 1} : n < Len(e) => Decode(SubSeq(e, 1, n)) = Error
=============================================================================
