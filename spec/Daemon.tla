------------------------------- MODULE Daemon -------------------------------
(* What a node answers to a datagram, as a function of its catalogue.         *)
(* The catalogue is a set of entries [hash, name, size, csize, count, held].  *)
EXTENDS Ranges, Wire

CONSTANT Port               \* of the node

VARIABLES addr,             \* of the node; the network may give it another one at any time
          cat,              \* the catalogue
          open              \* asker has an upload open: data packets may arrive any time

Blank == [k \in 1 .. 20 |-> 255]

Find(h) == { e \in cat : e.hash = h }
Held(h) == UNION { e.held : e \in Find(h) }

\* -------------------------------------------------- changes of the catalogue
Register(e) == Find(e.hash) = {} /\ cat' = cat \cup {e} /\ UNCHANGED <<addr, open>>
Save(h, c) == /\ Find(h) # {}
              /\ cat' = { IF e.hash = h THEN [e EXCEPT !.held = @ \cup {c}] ELSE e : e \in cat }
              /\ UNCHANGED <<addr, open>>
Unshare(h) == Find(h) # {} /\ cat' = cat \ Find(h) /\ UNCHANGED <<addr, open>>
Move(a) == addr' = a /\ UNCHANGED <<cat, open>>

\* ------------------------------------------------------------------- answers
Runs(S) == Cardinality({ x \in S : (x - 1) \notin S })

\* chunks is a correct answer to the question which of the chunks q are held
AnswersChunks(chunks, q, held) ==
    IF ~ WellFormedQuery(q) THEN IsHarmless(chunks, held)
    ELSE LET whole == IF Len(q) = 0 THEN <<0, 65535>> ELSE q
             S == held \cap Asked(whole)
         IN IF 2 * (Runs(S) + Len(whole) \div 2) <= MaxBounds
            THEN IsOverlap(chunks, whole, held)
            ELSE \* possibly too many for one message: a leading part
                 /\ SortedDisjoint(chunks)
                 /\ Len(chunks) > 0
                 /\ Members(chunks) = { x \in S : x <= chunks[Len(chunks)] }

AnswersDiscover(r, req) ==
    /\ r.t = DiscoverRes
    /\ r.id = req.id
    /\ r.addr = addr
    /\ r.port = Port
    /\ IF req.hash = Blank \/ Find(req.hash) = {} THEN r.chunks = <<>>
       ELSE AnswersChunks(r.chunks, req.chunks, Held(req.hash))

U32(x) == <<x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
Entry(e) == [size |-> e.size, count |-> U32(e.count), csize |-> e.csize,
             have |-> U32(Cardinality(e.held)), hash |-> e.hash, name |-> ClipName(e.name)]

AnswersList(r, req) ==
    LET es == IF req.hash = Blank THEN cat ELSE Find(req.hash)
    IN /\ r.t = ListRes
       /\ r.id = req.id
       /\ Len(r.files) = Cardinality(es)
       /\ { r.files[k] : k \in 1 .. Len(r.files) } = { Entry(e) : e \in es }

\* replies to datagram b, sent `tries' times: a sequence of [via, bytes], where via
\* tells whether it came to the asker's own port or to the asker's node port
IsData(y) == y.via = "src" /\ Len(y.bytes) >= 5 /\ y.bytes[1] = Data

Served(b, tries, replies) ==
    LET m  == Decode(b)
        rs == SelectSeq(replies, LAMBDA y : ~ (open /\ IsData(y)))
    IN CASE m.t = DiscoverReq ->
              /\ Len(rs) \in 1 .. tries
              /\ \A k \in 1 .. Len(rs) : rs[k].via = "port" /\ AnswersDiscover(Decode(rs[k].bytes), m)
              /\ UNCHANGED open
         [] m.t = ListReq ->
              /\ Len(rs) \in 1 .. tries
              /\ \A k \in 1 .. Len(rs) : rs[k].via = "src" /\ AnswersList(Decode(rs[k].bytes), m)
              /\ UNCHANGED open
         [] m.t = OpenReq /\ m.chunk \in Held(m.hash) ->
              /\ Len(SelectSeq(replies, IsData)) > 0
              /\ \A k \in 1 .. Len(rs) : IsData(rs[k])
              /\ open' = TRUE
         [] OTHER -> rs = <<>> /\ UNCHANGED open

Serve(b, tries, replies) == Served(b, tries, replies) /\ UNCHANGED <<addr, cat>>

\* ---------------------------------------------------------------- properties
CatOK == \A e \in cat : /\ e.held \subseteq 0 .. e.count - 1
                        /\ \A f \in cat : e.hash = f.hash => e = f
=============================================================================
