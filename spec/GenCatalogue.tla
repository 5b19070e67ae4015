---------------------------- MODULE GenCatalogue ----------------------------
(* All short histories of a catalogue with two contents (A, B), source files  *)
(* (s1, s2) and download names (n1, n2): one behaviour per transition.        *)
EXTENDS Catalogue, Json

CONSTANTS MaxOps, Contents, Count

VARIABLE hist
gvars == <<cat, vals, fs, hist>>

Two == Big(Count)
One == Big(1)
SPaths == {"s1", "s2"}
DPaths == {"n1", "n2"}
DAlt == {"n1+", "n2+"}      \* another place for a name that is taken

InitFS == ("s1" :> [hash |-> "A", size |-> Two]) @@ ("s2" :> [hash |-> "B", size |-> Two])

\* content of a download's file, given the digests of its chunks
FileOf(h, v) == IF DOMAIN v = 0 .. Count - 1 /\ \A k \in DOMAIN v : v[k] = h THEN h ELSE "junk"

Do(rec) == hist' = Append(hist, rec)

GShare == \E p \in SPaths \cup DPaths, ok \in BOOLEAN :
            /\ Share(p, ok, Paths, Count)
            /\ (ok \/ p \in DOMAIN fs) /\ UNCHANGED fs
            /\ Do([op |-> "share", path |-> p])
GRegister == \E h \in Contents, n \in DPaths, good \in BOOLEAN, ok \in BOOLEAN, p \in DPaths \cup DAlt :
            /\ Register(h, Two, One, IF good THEN Count ELSE Count + 1, n, FALSE, ok, Paths, p, "dl", "dl")
            /\ (p \in DPaths => p = n) /\ (p \in DAlt => ok /\ p = n \o "+")
            /\ UNCHANGED fs
            /\ Do([op |-> "register", c |-> h, name |-> n, good |-> good])
GSave == \E h \in Contents, k \in 0 .. Count, good \in BOOLEAN, ok \in BOOLEAN :
            /\ Save(h, k, One, IF good THEN h ELSE "other", ok, TRUE)
            /\ (h \notin DOMAIN cat => k = 0 /\ good)
            /\ (h \in DOMAIN cat => cat[h].path \notin SPaths)
            /\ fs' = IF ok THEN Put(fs, cat[h].path, [hash |-> FileOf(h, vals'[h]), size |-> Two]) ELSE fs
            /\ Do([op |-> "save", c |-> h, chunk |-> k, good |-> good])
GUnshare == \E h \in Contents, ok \in BOOLEAN : Unshare(h, ok) /\ UNCHANGED fs /\ Do([op |-> "unshare", c |-> h])
GClean == /\ cat' = [h \in DOMAIN cat \ Stale |-> cat[h]]
          /\ vals' = [h \in DOMAIN cat \ Stale |-> vals[h]]
          /\ DOMAIN cat # {}
          /\ UNCHANGED fs
          /\ Do([op |-> "clean"])
GReopen == DOMAIN cat # {} /\ UNCHANGED <<cat, vals, fs>> /\ Do([op |-> "reopen"])
GOutside == \E p \in DOMAIN fs : \E c \in Contents \cup {"junk", "none"} :
            /\ c # fs[p].hash
            /\ (c \in Contents => p = "s2")
            /\ fs' = IF c = "none" THEN Without(fs, p) ELSE Put(fs, p, [hash |-> c, size |-> Two])
            /\ Outside(p)
            /\ Do([op |-> "outside", path |-> p, c |-> c])

Init == cat = <<>> /\ vals = <<>> /\ fs = InitFS /\ hist = <<>>
Next == Len(hist) < MaxOps /\
        (GShare \/ GRegister \/ GSave \/ GUnshare \/ GClean \/ GReopen \/ GOutside)
Spec == Init /\ [][Next]_gvars

View == <<cat, vals, fs>>
\* one behaviour per transition: the shortest way to its first state, and then it
Emit == [][PrintT(<<"GEN", ToJson(hist')>>)]_hist
=============================================================================
