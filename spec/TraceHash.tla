----------------------------- MODULE TraceHash -----------------------------
(* Decides what the real code made of hashes, texts and byte strings. Every   *)
(* event stands for itself.                                                   *)
EXTENDS Hash, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.TRACE_VERBOSE = "1"
VARIABLES tr, i

Ok(e) ==
    /\ ~ ("panic" \in DOMAIN e)
    /\ CASE e.op = "hash"  -> \* its text, itself read back from the text and from its bytes, whether it is null,
                              \* a copy of its bytes after the hash was made null, and what it was made
                              /\ e.text = Text(e.v) /\ e.back = e.v /\ e.again = e.v
                              /\ e.null = (IF IsNull(e.v) THEN 1 ELSE 0)
                              /\ e.bytes = e.v /\ e.copy = e.v
                              /\ IsNull(e.blank)
         [] e.op = "text"  -> e.ok = (IF IsText(e.v) THEN 1 ELSE 0) /\ e.after = AfterText(e.before, e.v)
         [] e.op = "bytes" -> e.ok = (IF Len(e.v) = 20 THEN 1 ELSE 0) /\ e.after = AfterBytes(e.before, e.v)
         [] OTHER          -> FALSE

Init == tr \in 1 .. Len(Traces) /\ i = 0
Next == /\ i < Len(Traces[tr])
        /\ Ok(Traces[tr][i + 1])
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, i>>

Done == i = Len(Traces[tr]) => PrintT(<<"ACC", tr>>)
At == Verbose => PrintT(<<"AT", tr, i>>)
=============================================================================
