-------------------------------- MODULE GenLife --------------------------------
(* Lives of a daemon: starts, ends (at rest, at work, while it starts) that     *)
(* leave something in the place of its socket, further daemons, new homes, and  *)
(* commands between them. One session per transition.                           *)
EXTENDS Catalogue, Json

CONSTANTS MaxOps

VARIABLES up, left, hist
gvars == <<cat, vals, fs, up, left, hist>>

One == Big(1)
File(c) == [hash |-> c, size |-> One]
Init == /\ fs = ("s/p" :> File("A")) @@ ("s/q" :> File("B"))
        /\ cat = <<>> /\ vals = <<>>
        /\ up = TRUE /\ left = 0 /\ hist = <<>>

Do(rec) == hist' = Append(hist, rec)
Lefts == 0 .. 3      \* a stale socket, nothing, a directory, a file
Shared(P) == /\ cat' = [h \in DOMAIN cat \cup { fs[p].hash : p \in P } |->
                          IF h \in DOMAIN cat THEN cat[h] ELSE ShareEntry(CHOOSE p \in P : fs[p].hash = h, 1)]
             /\ vals' = [h \in DOMAIN cat' |-> <<>>]
Share1 == \E p \in DOMAIN fs : up /\ Shared({p}) /\ UNCHANGED <<fs, up, left>> /\ Do([op |-> "share", path |-> p])
Clean1 == /\ up /\ cat' = [h \in DOMAIN cat \ Stale |-> cat[h]] /\ vals' = [h \in DOMAIN cat' |-> vals[h]]
          /\ UNCHANGED <<fs, up, left>> /\ Do([op |-> "clean"])
Lost == \E p \in DOMAIN fs : fs' = Without(fs, p) /\ Same /\ UNCHANGED <<up, left>> /\ Do([op |-> "remove", path |-> p])
Start1 == ~ up /\ up' = TRUE /\ left' = 0 /\ UNCHANGED <<cat, vals, fs>> /\ Do([op |-> "start"])
Stop1 == \E l \in Lefts : up /\ up' = FALSE /\ left' = l /\ UNCHANGED <<cat, vals, fs>> /\ Do([op |-> "stop", left |-> l])
Flash1 == \E l \in Lefts : ~ up /\ left' = l /\ UNCHANGED <<cat, vals, fs, up>> /\ Do([op |-> "flash", left |-> l])
Second1 == up /\ UNCHANGED <<cat, vals, fs, up, left>> /\ Do([op |-> "second"])
Fresh1 == ~ up /\ DOMAIN cat # {} /\ cat' = <<>> /\ vals' = <<>> /\ UNCHANGED <<fs, up, left>> /\ Do([op |-> "fresh"])
\* ended while it is at some commands
Cut1 == \E l \in Lefts, P \in SUBSET DOMAIN fs, Done \in SUBSET DOMAIN fs, c \in BOOLEAN :
          /\ up /\ Done \subseteq P /\ (P # {} \/ c) = TRUE
          /\ up' = FALSE /\ left' = l /\ UNCHANGED fs
          /\ Shared(Done)
          /\ Do([op |-> "cut", left |-> l, share |-> P, clean |-> c])

Next == Len(hist) < MaxOps /\ (Share1 \/ Clean1 \/ Lost \/ Start1 \/ Stop1 \/ Flash1 \/ Second1 \/ Fresh1 \/ Cut1)
Spec == Init /\ [][Next]_gvars
View == <<cat, vals, fs, up, left, IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>
Emit == [][PrintT(<<"GEN", ToJson(hist')>>)]_hist
=============================================================================
