------------------------------ MODULE Catalogue ------------------------------
(* The catalogue of a node: one entry per content hash, and every operation   *)
(* on it as a relation between the state before, the arguments, the result    *)
(* and the state after.                                                       *)
(*   cat   hash -> [path, size, csize, count, held]  (size, csize: BigNat)    *)
(*   vals  hash -> chunk -> digest of the bytes that were saved               *)
(*   fs    path -> [hash, size] of the regular file there; paths without one  *)
(*         are not in its domain                                              *)
EXTENDS BigNat, FiniteSets, TLC

CONSTANTS SharedChunk,      \* chunk size of shared files (BigNat)
          MaxCount          \* chunks a file may have

VARIABLES cat, vals, fs
cvars == <<cat, vals, fs>>

Listed(h) == h \in DOMAIN cat
Paths == { cat[h].path : h \in DOMAIN cat }
At(p) == { h \in DOMAIN cat : cat[h].path = p }
Full(e) == e.held = 0 .. e.count - 1
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* count chunks of csize bytes make a file of size bytes
Dims(size, csize, count) == count <= MaxCount /\ Divides(size, csize, count)
\* the number of bytes of chunk k is len
Length(e, k, len) ==
    /\ k \in 0 .. e.count - 1
    /\ IF k < e.count - 1 THEN len = e.csize
       ELSE BAdd(BTimes(e.csize, k), len) = e.size

Same == UNCHANGED <<cat, vals>>

\* ------------------------------------------------------------- operations
\* each refers to its arguments and its result: ok, and more where there is more

\* share the file at path p, which holds content h of the given size
ShareRefused(p, named) ==
    \/ p \notin DOMAIN fs
    \/ /\ p \in DOMAIN fs /\ Listed(fs[p].hash)
       /\ cat[fs[p].hash].path \in named         \* the error names the listed path
    \/ /\ p \in DOMAIN fs /\ ~ Listed(fs[p].hash)
       /\ \E h \in At(p) : ~ Full(cat[h])        \* an unfinished download
ShareEntry(p, count) == [path |-> p, size |-> fs[p].size, csize |-> SharedChunk, count |-> count, held |-> 0 .. count - 1]
Share(p, ok, named, count) ==
    IF ok
    THEN /\ p \in DOMAIN fs
         /\ ~ Listed(fs[p].hash)
         /\ \A h \in At(p) : Full(cat[h])
         /\ Dims(fs[p].size, SharedChunk, count)
         /\ cat' = Put(cat, fs[p].hash, ShareEntry(p, count))
         /\ vals' = Put(vals, fs[p].hash, <<>>)
    ELSE ShareRefused(p, named) = TRUE /\ Same

\* register a download; base: the last component of the name; path: where it goes, dir: the directory of that
Register(h, size, csize, count, base, badname, ok, named, path, dir, dl) ==
    IF ok
    THEN /\ ~ Listed(h)
         /\ ~ badname
         /\ Dims(size, csize, count)
         /\ dir = dl
         /\ path \notin Paths
         /\ base \notin Paths => path = base     \* (base: as a path in the downloads directory)
         /\ cat' = Put(cat, h, [path |-> path, size |-> size, csize |-> csize, count |-> count, held |-> {}])
         /\ vals' = Put(vals, h, <<>>)
    ELSE /\ (badname \/ ~ Dims(size, csize, count) \/ (IF Listed(h) THEN cat[h].path \in named ELSE base \in Paths)) = TRUE
         /\ Same

Savable(h, k, len) == Listed(h) /\ Length(cat[h], k, len)
Save(h, k, len, digest, ok, place) ==
    IF ok
    THEN /\ Savable(h, k, len)
         /\ cat' = [cat EXCEPT ![h].held = @ \cup {k}]
         \* (two shared files may be entries for the same path, one of them stale: the other has no say then)
         /\ vals' = [x \in DOMAIN vals |-> IF x = h THEN Put(vals[x], k, digest)
                                            ELSE IF cat[x].path = cat[h].path THEN <<>> ELSE vals[x]]
    ELSE ~ (Savable(h, k, len) /\ place) /\ Same   \* place: the file can be written at all

Unshare(h, ok) ==
    IF ok THEN /\ Listed(h)
               /\ cat' = Without(cat, h)
               /\ vals' = Without(vals, h)
    ELSE ~ Listed(h) /\ Same

\* entries that cannot be shared
Stale == { h \in DOMAIN cat : \/ cat[h].path \notin DOMAIN fs
                              \/ Full(cat[h]) /\ fs[cat[h].path].hash # h }
\* items: what is reported about each entry
Clean(items, Blank) ==
    /\ Len(items) = Cardinality(DOMAIN cat)
    /\ \A h \in DOMAIN cat : \E k \in DOMAIN items :
          /\ items[k].path = cat[h].path
          /\ items[k].indexed = h
          /\ IF cat[h].path \in DOMAIN fs THEN items[k].current = fs[cat[h].path].hash
             ELSE items[k].current \in Blank
    /\ cat' = [h \in DOMAIN cat \ Stale |-> cat[h]]
    /\ vals' = [h \in DOMAIN cat \ Stale |-> vals[h]]

\* the world outside changes the file at p: what was saved there is no longer expected
Outside(p) == /\ vals' = [h \in DOMAIN vals |-> IF cat[h].path = p THEN <<>> ELSE vals[h]]
              /\ Without(fs', p) = Without(fs, p)
              /\ UNCHANGED cat

\* operations leave all files alone, except that saving a chunk writes the file of that download
FilesKept == fs' = fs
FilesKeptBut(h) == IF Listed(h) THEN Without(fs', cat[h].path) = Without(fs, cat[h].path) ELSE fs' = fs

\* ------------------------------------------------------------ observations
\* what a listing shows about the entry h, given as record x
Shows(h, x) ==
    /\ x.hash = h /\ x.path = cat[h].path /\ x.size = cat[h].size /\ x.csize = cat[h].csize
    /\ x.count = cat[h].count
    /\ x.held = cat[h].held
ListingOK(l) ==
    /\ Len(l) = Cardinality(DOMAIN cat)
    /\ \A h \in DOMAIN cat : \E k \in DOMAIN l : Shows(h, l[k])

\* -------------------------------------------------------------- properties
EntriesOK == \A h \in DOMAIN cat :
    LET e == cat[h] IN
    /\ Dims(e.size, e.csize, e.count)
    /\ e.held \subseteq 0 .. e.count - 1
    /\ DOMAIN vals[h] \subseteq e.held
ValsOK == DOMAIN vals = DOMAIN cat
=============================================================================
