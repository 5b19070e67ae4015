---------------------------------- MODULE Cli ----------------------------------
(* The command line of a node: what every command prints, given the catalogue, *)
(* the files and the other nodes of the network, and what it changes.          *)
(* A command has a name and arguments [kind, is]; its outcome is a record:     *)
(*   rc, panic, out: "" (nothing), "text" (a message), "items", "peers",       *)
(*   "report", "started" (results, in a field of that name)                    *)
EXTENDS CatOps

VARIABLES up,       \* the daemon runs
          online,   \* the machine is connected
          self,     \* its [ip, port]
          lan       \* ip -> [port, list, disc, files, chunks]: the other nodes

netVars == <<up, online, self, lan>>
AllFiles == "ffffffffffffffffffffffffffffffffffffffff"

\* ------------------------------------------------------- what is printed
\* an entry of the catalogue, as `share' and `list' show it
ItemOf(h, x) == /\ x.hash = h /\ x.path = cat[h].path /\ x.size = cat[h].size /\ x.csize = cat[h].csize
                /\ x.count = Big(cat[h].count) /\ x.have = Big(Cardinality(cat[h].held))
Percent(x, have, count) == x.percent = IF count = 0 THEN 100 ELSE (have * 100) \div count
\* .. an entry as other nodes see it: by the name of its file only
IsSuffix(s, t) == \E k \in 1 .. Len(t) : SubSeq(t, k, Len(t)) = s
RemoteItemOf(h, x) == /\ x.hash = h /\ x.size = cat[h].size /\ x.csize = cat[h].csize
                      /\ x.count = Big(cat[h].count) /\ x.have = Big(Cardinality(cat[h].held))
                      /\ cat[h].path = x.path \/ IsSuffix("/" \o x.path, cat[h].path)
FileItem(f, x) == /\ x.hash = f.hash /\ x.size = f.size /\ x.csize = f.csize /\ x.count = f.count /\ x.have = f.have
                  /\ x.path = f.name

\* the items are these, one each
Matches(items, S, Is(_, _)) ==
    /\ Len(items) = Cardinality(S)
    /\ \A s \in S : \E k \in DOMAIN items : Is(s, items[k])

Message(e) == e.out = "text"
Listing(e, S, Is(_, _)) == IF S = {} THEN e.out = "" ELSE e.out = "items" /\ Matches(e.items, S, Is)

\* ------------------------------------------------------------- commands
Bad(a) == a.kind \notin {"hash"}
Host(ip) == online /\ ip \in DOMAIN lan /\ lan[ip].list = "ok"
FilesOf(ip, h) == { k \in DOMAIN lan[ip].files : h = AllFiles \/ lan[ip].files[k].hash = h }
OwnFiles(h) == IF h = AllFiles THEN DOMAIN cat ELSE DOMAIN cat \cap {h}

ListHere(e) == Listing(e, DOMAIN cat, LAMBDA h, x : ItemOf(h, x) /\ Percent(x, Cardinality(cat[h].held), cat[h].count))
ListThere(e, ip, h) ==
    IF ip = "self" \/ (online /\ ip = self.ip)
    THEN Listing(e, OwnFiles(h), LAMBDA g, x : RemoteItemOf(g, x))
    ELSE IF Host(ip)
    THEN Listing(e, FilesOf(ip, h), LAMBDA k, x : FileItem(lan[ip].files[k], x))
    ELSE Message(e)
List(e) ==
    /\ Same
    /\ CASE Len(e.args) = 0 -> ListHere(e)
         [] e.args[1].kind = "odd" -> TRUE           \* broadcast and the like: somebody or nobody answers
         [] e.args[1].kind # "ip" -> Message(e)
         [] Len(e.args) > 1 /\ Bad(e.args[2]) -> Message(e)
         [] OTHER -> ListThere(e, e.args[1].is, IF Len(e.args) > 1 THEN e.args[2].is ELSE AllFiles)

ShareCmd(e) ==
    IF Len(e.args) # 1 THEN Message(e) /\ Same
    ELSE LET p == e.args[1].is
             ok == e.out = "items"
             n == IF ok /\ Len(e.items) = 1 THEN CHOOSE c \in 0 .. 64 : Big(c) = e.items[1].count ELSE 0
         IN /\ (ok \/ Message(e)) = TRUE
            /\ Share(p, ok, SeqSet(e.named), n)
            /\ ok => LET x == e.items[1]
                     IN Len(e.items) = 1 /\ x.hash = fs[p].hash /\ x.path = p /\ x.size = fs[p].size /\ x.csize = SharedChunk
                        /\ x.have = x.count /\ x.percent = 100

\* peers that a discovery finds: the node itself, and all others that answer
RunsOf(h) == IF h \in DOMAIN cat THEN RunsFrom(cat[h].held) ELSE <<>>
ChunksAt(ip, h) == IF h \in DOMAIN lan[ip].chunks THEN lan[ip].chunks[h] ELSE <<>>
Answers(h) == IF ~ online THEN {}
              ELSE { <<self.ip, self.port, RunsOf(h)>> } \cup { <<ip, lan[ip].port, ChunksAt(ip, h)>> : ip \in { i \in DOMAIN lan : lan[i].disc > 0 } }
Printed(e) == { <<e.peers[k].ip, e.peers[k].port, e.peers[k].chunks>> : k \in DOMAIN e.peers }
Chims(e) ==
    /\ Same
    /\ IF Len(e.args) > 0 /\ Bad(e.args[1]) THEN Message(e)
       ELSE LET A == Answers(IF Len(e.args) > 0 THEN e.args[1].is ELSE AllFiles)
            IN IF A = {} THEN e.out \in {"", "text"}
               ELSE e.out = "peers" /\ Printed(e) = A
                    \* each as often as it answered
                    /\ \A ip \in DOMAIN lan : Cardinality({ k \in DOMAIN e.peers : e.peers[k].ip = ip }) = lan[ip].disc

\* nodes that have something of file h, and what they say about it
Sources(h) == IF online THEN { ip \in DOMAIN lan : lan[ip].disc > 0 /\ ChunksAt(ip, h) # <<>> } ELSE {}
Meta(ip, h) == IF lan[ip].list = "ok" /\ Cardinality(FilesOf(ip, h)) = 1
               THEN LET f == lan[ip].files[CHOOSE k \in FilesOf(ip, h) : TRUE]
                    IN IF f.hash = h THEN {f} ELSE {} ELSE {}
SmallCount(b) == IF \E c \in 0 .. 64 : Big(c) = b THEN CHOOSE c \in 0 .. 64 : Big(c) = b ELSE MaxCount + 1
\* f could be registered, at path p
Registers(f, p, named) == Register(f.hash, f.size, f.csize, SmallCount(f.count), "$D/dl/" \o f.name, FALSE, TRUE, named, p, DL, DL)
Refusable(f) == ~ Dims(f.size, f.csize, SmallCount(f.count)) \/ f.name \in {"", ".", ".."}

\* path: where the file is now, if it is listed
Get(e) ==
    IF Len(e.args) # 1 \/ Bad(e.args[1]) THEN Message(e) /\ Same
    ELSE LET h == e.args[1].is
             src == Sources(h)
         IN IF Listed(h) THEN Same /\ (IF src = {} THEN Message(e) ELSE e.out = "started")
            ELSE CASE e.out = "started" -> \E ip \in src : \E f \in Meta(ip, h) : ~ Refusable(f) /\ Registers(f, e.path, {})
                   [] Message(e) -> (\A ip \in src : TRUE) /\ (src = {} \/ \E ip \in src : Meta(ip, h) = {} \/ \A f \in Meta(ip, h) : Refusable(f)) = TRUE /\ Same
                   [] OTHER -> FALSE

\* what `clean' says about entry h
State(h) == CASE cat[h].path \notin DOMAIN fs -> "missing"
              [] ~ Full(cat[h]) -> "progress"
              [] fs[cat[h].path].hash # h -> "changed"
              [] OTHER -> "fine"
Says(h, x) == /\ x.path = cat[h].path /\ x.what = State(h)
              /\ x.what = "changed" => x.hashes = <<h, fs[cat[h].path].hash>>
CleanCmd(e) ==
    IF Len(e.args) # 0 THEN Message(e) /\ Same
    ELSE /\ IF DOMAIN cat = {} THEN e.out = "" ELSE e.out = "report" /\ Matches(e.report, DOMAIN cat, Says)
         /\ cat' = [h \in DOMAIN cat \ Stale |-> cat[h]]
         /\ vals' = [h \in DOMAIN cat \ Stale |-> vals[h]]

\* Every command ends, with a result or a message, and nobody falls over
Command(e) ==
    /\ e.rc >= 0 /\ ~ e.panic
    /\ IF ~ up \/ e.cmd \notin {"share", "clean", "list", "get", "chims"} THEN Message(e) /\ Same
       ELSE CASE e.cmd = "share" -> ShareCmd(e)
              [] e.cmd = "clean" -> CleanCmd(e)
              [] e.cmd = "list"  -> List(e)
              [] e.cmd = "get"   -> Get(e)
              [] e.cmd = "chims" -> Chims(e)
    /\ UNCHANGED netVars
=============================================================================
