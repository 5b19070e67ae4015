----------------------------- MODULE TraceWire -----------------------------
(* Decides recorded encodings and decodings of the real code. There is no     *)
(* state: every event stands for itself, and is one "trace".                  *)
EXTENDS Wire, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.TRACE_VERBOSE = "1"
VARIABLES tr, i

Ok(e) ==
    /\ ~ ("panic" \in DOMAIN e)
    /\ CASE e.op = "ser"   -> IsEncoding(e.bytes, e.m)
         \* sent by the real code, received (followed by padding) by the real code
         [] e.op = "rt"    -> /\ IsEncoding(e.bytes, e.m)
                              /\ e.res \in Arrivals(e.m)
         \* arbitrary bytes
         [] e.op = "parse" -> e.res = Decode(e.bytes)
         [] e.op = "data"  -> e.res = DecodeData(e.bytes)
         [] e.op = "first" -> LET d == DecodeData(e.bytes)
                              IN e.res = DecodeFirst(d)
         [] OTHER          -> FALSE

Init == tr \in 1 .. Len(Traces) /\ i = 0
Next == /\ i < Len(Traces[tr])
        /\ Ok(Traces[tr][i + 1])
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, i>>

Done == i = Len(Traces[tr]) => PrintT(<<"ACC", tr>>)
At == Verbose => PrintT(<<"AT", tr, i>>)
=============================================================================
