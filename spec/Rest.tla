--------------------------------- MODULE Rest ----------------------------------
(* What a node may still have when everything that was asked of it is over: as *)
(* much as it had when other work of the same kinds was over before.           *)
EXTENDS Integers, FiniteSets

CONSTANTS Slack,        \* of which it may have that many more
          MemorySlack   \* (megabytes)

VARIABLES going,        \* work that is not over
          base,         \* what it had at rest
          atRest        \* entries that it lists when nothing is shared any more, or -1

restVars == <<going, base, atRest>>
Resources == {"routines", "files", "sockets"}

RestInit == going = {} /\ base = <<>> /\ atRest = 0

\* It is asked for something (a chunk, a download, a command, a reply), and whoever asked has been told, or
\* does not wait any longer
Begin(w) == w \notin going /\ going' = going \cup {w} /\ UNCHANGED <<base, atRest>>
End(w) == w \in going /\ going' = going \ {w} /\ UNCHANGED <<base, atRest>>

\* All files have been removed: nothing is listed
Clean(entries) == going = {} /\ entries = 0 /\ atRest' = entries /\ UNCHANGED <<going, base>>

Base(has) == going = {} /\ base' = has /\ UNCHANGED <<going, atRest>>

\* The time limits have passed
Rest(has) == /\ going = {} /\ base # <<>>
             /\ \A x \in Resources : has[x] <= base[x] + Slack
             /\ has.memory <= base.memory + MemorySlack
             /\ UNCHANGED restVars
=============================================================================
