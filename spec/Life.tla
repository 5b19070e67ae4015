--------------------------------- MODULE Life ----------------------------------
(* The daemon of a node over its lives: it is started with a home directory    *)
(* that is new or was left behind by an earlier one, whatever that was doing   *)
(* when it ended, and serves; and while it runs, further ones end with an      *)
(* error and disturb nothing.                                                  *)
EXTENDS Cli

\* it is started, and serves in the end
Start(served) == /\ ~ up /\ served
                 /\ up' = TRUE /\ Same /\ UNCHANGED <<online, self, lan>>
Stop == up' = FALSE /\ Same /\ UNCHANGED <<online, self, lan>>
\* ended before it was ready
Flash == ~ up /\ Same /\ UNCHANGED netVars
\* further daemons are started, rcs: how they ended
Second(rcs) == /\ up /\ \A k \in DOMAIN rcs : rcs[k] > 0
               /\ Same /\ UNCHANGED netVars
\* a new home directory
Fresh == ~ up /\ cat' = <<>> /\ vals' = <<>> /\ UNCHANGED netVars

\* The daemon ends while it is at commands cs: `after' is the catalogue then. Every command is done or
\* not, those that said so are, and nothing else changes.
Ended(c, what) == c.cmd = what /\ c.out # "text" /\ c.rc = 0
Cut(cs, after) ==
    LET shares == { k \in DOMAIN cs : cs[k].cmd = "share" }
        cleans == { k \in DOMAIN cs : cs[k].cmd = "clean" }
        old == { h \in DOMAIN cat \cap DOMAIN after : after[h] = cat[h] }
    IN /\ up
       /\ \A k \in DOMAIN cs : cs[k].rc >= 0 /\ ~ cs[k].panic
       /\ DOMAIN cat \ old \subseteq (IF cleans = {} THEN {} ELSE Stale)
       /\ (\E k \in cleans : Ended(cs[k], "clean")) => Stale \cap old = {}
       \* (a file whose entry was removed may have been shared again)
       /\ \A h \in DOMAIN after \ old : \E k \in shares : LET p == cs[k].args[1].is IN
                /\ p \in DOMAIN fs /\ fs[p].hash = h
                /\ Dims(fs[p].size, SharedChunk, after[h].count)
                /\ after[h] = ShareEntry(p, after[h].count)
       /\ \A k \in shares : Ended(cs[k], "share") =>
                LET p == cs[k].args[1].is IN fs[p].hash \in DOMAIN after /\ after[fs[p].hash].path = p
       /\ cat' = after /\ vals' = [h \in DOMAIN after |-> <<>>]
       /\ up' = FALSE /\ UNCHANGED <<online, self, lan>>
=============================================================================
