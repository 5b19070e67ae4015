-------------------------------- MODULE GenCli --------------------------------
(* Sessions at the command line: commands, changes of the files they are about, *)
(* a daemon that stops and starts, and a network that goes and comes. One       *)
(* session per transition.                                                      *)
EXTENDS Catalogue, Json

CONSTANTS MaxOps, Contents

VARIABLES up, online, hist
gvars == <<cat, vals, fs, up, online, hist>>

One == Big(1)
Paths2 == {"s/p", "s/q"}
File(c) == [hash |-> c, size |-> One]
\* U: an unfinished download; its file is there from the start
Init == /\ fs = ("s/p" :> File("A")) @@ ("dl/u" :> File("U?"))
        /\ cat = ("U" :> [path |-> "dl/u", size |-> Big(2), csize |-> One, count |-> 2, held |-> {0}])
        /\ vals = ("U" :> <<>>)
        /\ up = TRUE /\ online = TRUE /\ hist = <<>>

Do(rec) == hist' = Append(hist, rec)
Calm == UNCHANGED <<cat, vals, fs, up, online>>
Share1 == \E p \in Paths2, ok \in BOOLEAN :
            /\ IF up THEN Share(p, ok, Paths, 1) ELSE ~ ok /\ Same
            /\ UNCHANGED <<fs, up, online>> /\ Do([op |-> "share", path |-> p])
Clean1 == /\ cat' = IF up THEN [h \in DOMAIN cat \ Stale |-> cat[h]] ELSE cat
          /\ vals' = [h \in DOMAIN cat' |-> vals[h]]
          /\ UNCHANGED <<fs, up, online>> /\ Do([op |-> "clean"])
Ask == \E q \in {"list", "listself", "listhash", "listhost", "get", "chims"} :
            /\ (q \in {"get", "chims"} => ~ online \/ ~ up) = TRUE   \* (they take long otherwise)
            /\ Calm /\ Do([op |-> q])
Write == \E p \in Paths2 \cup {"dl/u"}, c \in Contents \cup {"none"} :
            /\ (p = "dl/u" => c = "none") = TRUE
            /\ fs' = IF c = "none" THEN Without(fs, p) ELSE Put(fs, p, File(c))
            /\ fs' # fs
            /\ Outside(p) /\ UNCHANGED <<up, online>>
            /\ Do([op |-> "file", path |-> p, c |-> c])
Power == /\ up' = ~ up /\ UNCHANGED <<cat, vals, fs, online>> /\ Do([op |-> IF up THEN "stop" ELSE "start"])
Cable == /\ online' = ~ online /\ up /\ UNCHANGED <<cat, vals, fs, up>> /\ Do([op |-> IF online THEN "offline" ELSE "online"])

Next == Len(hist) < MaxOps /\ (Share1 \/ Clean1 \/ Ask \/ Write \/ Power \/ Cable)
Spec == Init /\ [][Next]_gvars
View == <<cat, vals, fs, up, online>>
Emit == [][PrintT(<<"GEN", ToJson(hist')>>)]_hist
=============================================================================
