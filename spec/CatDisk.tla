------------------------------- MODULE CatDisk -------------------------------
(* How the catalogue is kept on disk: an index file, and a progress file per  *)
(* entry, each replaced by writing a temporary file and renaming it. Any step *)
(* may fail (the disk is full), and the process may be killed between any two *)
(* steps, also in the middle of a write. What the disk shows must then be the *)
(* catalogue before or after the operation, and what memory shows must agree  *)
(* with the disk whenever no operation is going on.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Hashes, Chunks, MaxOps,
          IndexFirst,     \* TRUE: (wrongly) the index is written before the progress file
          InPlace,        \* TRUE: (wrongly) files are overwritten in place
          NoRollback      \* TRUE: (wrongly) memory is not put back when a step fails

NoFile == {"none"}
Torn == {"torn"}

VARIABLES index,    \* the index file: set of hashes, or Torn
          prog,     \* progress files: hash -> set of chunks, Torn or NoFile
          data,     \* the files: hash -> chunk -> "good", "torn" or "none"
          tmp,      \* the temporary files: name -> content; only their being there matters
          mem,      \* the catalogue in memory: hash -> set of chunks
          up,       \* whether the process runs
          dl,       \* the downloads among the entries (ghost)
          op,       \* the operation that is going on, with the steps that remain
          before, after,   \* what it goes from and to
          left      \* operations that may still be started
vars == <<index, prog, data, tmp, mem, up, dl, op, before, after, left>>

Idle == [kind |-> "idle", h |-> "", k |-> 0, todo |-> <<>>]
Drop(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]
Up(f, h, v) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN v ELSE f[x]]

\* what a process sees that opens the catalogue now
Openable == /\ index # Torn
            /\ \A h \in index : prog[h] # NoFile /\ prog[h] # Torn
Shown == [h \in index |-> prog[h]]

Init == /\ index = {}
        /\ prog = [h \in Hashes |-> NoFile]
        /\ data = [h \in Hashes |-> [k \in Chunks |-> "none"]]
        /\ tmp = {} /\ mem = <<>> /\ up = TRUE /\ dl = {} /\ op = Idle /\ before = <<>> /\ after = <<>> /\ left = MaxOps

Running == up
W(name) == IF InPlace THEN <<<<"write", name>>>> ELSE <<<<"tmp", name>>, <<"rename", name>>>>
AddSteps == IF IndexFirst THEN W("index") \o W("prog") ELSE W("prog") \o W("index")

Start(kind, h, k, to, steps) ==
    /\ Running /\ op = Idle /\ left > 0
    /\ op' = [kind |-> kind, h |-> h, k |-> k, todo |-> steps]
    /\ before' = mem /\ after' = to
    /\ left' = left - 1
    /\ dl' = IF kind = "register" THEN dl \cup {h} ELSE IF kind = "share" THEN dl \ {h} ELSE dl
    /\ UNCHANGED <<index, prog, data, tmp, mem, up>>

Share(h) == Running /\ h \notin DOMAIN mem /\ Start("share", h, 0, Up(mem, h, Chunks), AddSteps)
Register(h) == Running /\ h \notin DOMAIN mem /\ Start("register", h, 0, Up(mem, h, {}), AddSteps)
Save(h, k) == Running /\ h \in DOMAIN mem /\ k \notin mem[h]
              /\ Start("save", h, k, Up(mem, h, mem[h] \cup {k}), <<<<"data", h>>>> \o W("prog"))
Unshare(h) == Running /\ h \in DOMAIN mem /\ Start("unshare", h, 0, Drop(mem, h), W("index") \o <<<<"delete", h>>>>)

\* the contents that the operation is about to write
NewIndex == DOMAIN after
NewProg == after[op.h]

Step ==
    /\ Running /\ op.todo # <<>>
    /\ LET s == Head(op.todo) IN
       /\ CASE s[1] = "tmp" -> tmp' = tmp \cup {s[2]} /\ UNCHANGED <<index, prog, data>>
            [] s[1] = "rename" \/ s[1] = "write" ->
                 /\ tmp' = tmp \ {s[2]}
                 /\ index' = IF s[2] = "index" THEN NewIndex ELSE index
                 /\ prog' = IF s[2] = "prog" THEN [prog EXCEPT ![op.h] = NewProg] ELSE prog
                 /\ UNCHANGED data
            [] s[1] = "data" -> data' = [data EXCEPT ![op.h][op.k] = "good"] /\ UNCHANGED <<index, prog, tmp>>
            [] s[1] = "delete" -> prog' = [prog EXCEPT ![op.h] = NoFile] /\ UNCHANGED <<index, data, tmp>>
    /\ op' = [op EXCEPT !.todo = Tail(@)]
    /\ UNCHANGED <<mem, up, dl, before, after, left>>

\* a write that does not come to its end: the rest of the operation is called off, or the process dies
Partial ==
    LET s == Head(op.todo) IN
    /\ index' = IF s = <<"write", "index">> THEN Torn ELSE index
    /\ prog' = IF s = <<"write", "prog">> THEN [prog EXCEPT ![op.h] = Torn] ELSE prog
    /\ data' = IF s[1] = "data" THEN [data EXCEPT ![op.h][op.k] = "torn"] ELSE data
    /\ tmp' = tmp
Nothing == UNCHANGED <<index, prog, data, tmp>>

Return == /\ Running /\ op.kind # "idle" /\ op.todo = <<>>
          /\ mem' = after /\ op' = Idle
          /\ UNCHANGED <<index, prog, data, tmp, up, dl, before, after, left>>

\* a failing step: the operation reports an error, unless all that was left was to tidy up
Fail == /\ Running /\ op.todo # <<>>
        /\ (Partial \/ Nothing)
        /\ IF Head(op.todo)[1] = "delete" THEN mem' = after
           ELSE mem' = IF NoRollback THEN after ELSE before
        /\ op' = Idle
        /\ UNCHANGED <<up, dl, before, after, left>>

Crash == /\ Running
         /\ up' = FALSE /\ mem' = <<>> /\ op' = Idle
         /\ IF op.todo # <<>> THEN Partial \/ Nothing ELSE Nothing
         /\ UNCHANGED <<dl, before, after, left>>

Reopen == /\ ~ Running
          /\ Openable /\ mem' = Shown /\ up' = TRUE
          /\ before' = Shown /\ after' = Shown
          /\ UNCHANGED <<index, prog, data, tmp, dl, op, left>>

Next == \/ \E h \in Hashes : Share(h) \/ Register(h) \/ Unshare(h) \/ \E k \in Chunks : Save(h, k)
        \/ Step \/ Return \/ Fail \/ Crash \/ Reopen
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
\* C03: at any time the catalogue can be opened and shows the state before or after the operation
Recoverable == Openable /\ Shown \in {before, after}
\* C02, C07: in between operations, memory and disk agree
Agree == Running /\ op = Idle => Openable /\ mem = Shown
\* C06: a held chunk of a download is in place
InPlaceData == index # Torn => \A h \in index \cap dl : prog[h] \notin {Torn, NoFile} =>
                  \A k \in prog[h] : data[h][k] = "good"
=============================================================================
