------------------------------- MODULE CatOps -------------------------------
(* Operations of the catalogue as records, as the harness writes them, and    *)
(* what is observed about the catalogue.                                      *)
EXTENDS Catalogue, Ranges

Chunk4M == <<4304, 419>>
DL == "$D/dl"
BlankHash == {"ffffffffffffffffffffffffffffffffffffffff", "0000000000000000000000000000000000000000"}

SeqSet(q) == { q[k] : k \in 1 .. Len(q) }
FSOf(l) == [p \in { l[k].path : k \in DOMAIN l } |->
               LET k == CHOOSE j \in DOMAIN l : l[j].path = p IN [hash |-> l[k].hash, size |-> l[k].size]]

\* ---- what was observed, against the state after the operation
EntryOK(c, v, x) ==
    /\ x.hash \in DOMAIN c
    /\ LET e == c[x.hash] IN
       /\ x.path = e.path /\ x.size = e.size /\ x.csize = e.csize
       /\ x.count = e.count
       /\ IsRunsOf(x.held, e.held)
       /\ x.heldCount = Cardinality(e.held)
       /\ x.full = Full(e)
       \* the bytes of the held chunks that were saved
       /\ \A k \in DOMAIN x.digests :
             LET q == x.digests[k] IN q[1] \in DOMAIN v[x.hash] => q[2] = v[x.hash][q[1]]
       /\ DOMAIN v[x.hash] \subseteq { x.digests[k][1] : k \in DOMAIN x.digests }
       \* questions about a single entry (not asked after every operation)
       /\ "missing" \in DOMAIN x => IsRunsOf(x.missing, (0 .. e.count - 1) \ e.held)
       /\ "complete" \in DOMAIN x => x.complete = Full(e)

Projection(c, v, l) ==
    /\ Len(l) = Cardinality(DOMAIN c)
    /\ { l[k].hash : k \in DOMAIN l } = DOMAIN c
    /\ \A k \in DOMAIN l : EntryOK(c, v, l[k])

\* x is an entry that was returned (without digests)
Returned(c, x) == EntryOK(c, [h \in DOMAIN c |-> <<>>], x)

\* the effect of an operation and its result
Op(e) ==
    CASE e.op = "share" -> Share(e.path, e.ok, SeqSet(e.named), e.count)
      [] e.op = "register" ->
            /\ Register(e.hash, e.size, e.csize, e.count, e.base, e.badname, e.ok, SeqSet(e.named), e.path, e.dir, DL)
            /\ e.ok /\ "res" \in DOMAIN e => Returned(cat', e.res)
      [] e.op = "save" -> Save(e.hash, e.chunk, e.len, e.digest, e.ok, e.place)
      [] e.op = "unshare" -> Unshare(e.hash, e.ok)
      [] e.op = "clean" -> e.ok /\ Clean(e.items, BlankHash)
      [] e.op = "contains" ->
            /\ e.ok = Listed(e.hash)
            /\ e.ok => e.res.hash = e.hash /\ Returned(cat, e.res)
            /\ Same
      [] e.op = "list" -> e.ok /\ Len(e.res) = Cardinality(DOMAIN cat) /\ { e.res[k].hash : k \in DOMAIN e.res } = DOMAIN cat
                          /\ (\A k \in DOMAIN e.res : Returned(cat, e.res[k])) /\ Same
      \* nothing is missing from a file that is not listed, and such a file is not complete
      [] e.op = "missing" -> IsRunsOf(e.runs, IF Listed(e.hash) THEN (0 .. cat[e.hash].count - 1) \ cat[e.hash].held ELSE {}) /\ Same
      [] e.op = "complete" -> e.ok = (Listed(e.hash) /\ Full(cat[e.hash])) /\ Same
      [] e.op = "rehash" ->
            /\ e.ok = (Listed(e.hash) /\ cat[e.hash].path \in DOMAIN fs)
            /\ IF e.ok THEN e.current = fs[cat[e.hash].path].hash ELSE e.current \in BlankHash
            /\ Same
      \* a reader for a chunk: only if it is held; digest is that of the bytes it delivers
      [] e.op = "reader" ->
            /\ e.ok => /\ Listed(e.hash) /\ e.chunk \in cat[e.hash].held
                       /\ e.digest = e.expected /\ e.announced = e.expected
                       /\ Length(cat[e.hash], e.chunk, e.len)
                       /\ e.chunk \in DOMAIN vals[e.hash] => e.digest = vals[e.hash][e.chunk]
            /\ ~ e.ok => ~ (Listed(e.hash) /\ e.chunk \in cat[e.hash].held /\ ~ e.damaged)
            /\ Same
      \* the catalogue is opened again from its directory, or from a copy elsewhere
      [] e.op = "reopen" -> e.ok /\ Same
      \* a result returned earlier, looked at again after its like were changed and operations performed
      [] e.op = "reread" -> e.now = e.first /\ Same
      [] OTHER -> FALSE
=============================================================================
