---------------------------- MODULE TraceBitset ----------------------------
(* Decides whether recorded executions of the bitset are behaviours of the   *)
(* specification. After every operation the complete projection of every     *)
(* register is compared.                                                     *)
EXTENDS Bitset, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.TRACE_VERBOSE = "1"

VARIABLES tr, i
vars == <<reg, tr, i>>

Init == /\ tr \in 1 .. Len(Traces)
        /\ i = 0
        /\ reg = [r \in Regs |-> Empty(0)]

SeqSet(q) == { q[k] : k \in 1 .. Len(q) }
\* the projection of one register, as reported by the code
Shows(b, o) ==
    /\ o.size = b.n
    /\ o.count = Cardinality(b.s)
    /\ o.full = IsFull(b)
    /\ Len(o.mem) = Cardinality(b.s) /\ SeqSet(o.mem) = b.s   \* indices for which Get is true
    /\ IsRunsOf(o.runs, b.s)
    /\ IsRunsOf(o.gaps, Missing(b))

Act(e) ==
    CASE e.op = "new"     -> New(e.r, e.x)
      [] e.op = "set"     -> Set(e.r, e.x)
      [] e.op = "unset"   -> Unset(e.r, e.x)
      [] e.op = "fill"    -> Fill(e.r)
      [] e.op = "copy"    -> CopyTo(e.r, e.d)
      [] e.op = "restore" -> e.ok /\ Restore(e.r, e.d)
      [] e.op = "union"   -> Union(e.r, e.b, e.d)
      [] e.op = "inter"   -> Inter(e.r, e.b, e.d)
      \* far out of bounds (the argument does not matter): not a member, nothing to clear
      [] e.op = "getfar"  -> Look /\ e.res = FALSE
      [] e.op = "unsetfar" -> Look
      [] e.op = "overlap" -> /\ Look
                             /\ IF WellFormedQuery(e.q) THEN IsOverlap(e.res, e.q, reg[e.r].s)
                                ELSE IsHarmless(e.res, reg[e.r].s)
      [] e.op = "first"   -> Look /\ IsFirst(e.res, e.x, Missing(reg[e.r]))
      \* bytes that are not a complete stored form
      [] e.op = "badform" -> Look /\ e.ok = FALSE
      \* bytes that may or may not be a stored form: refused, or a usable bitset
      [] e.op = "oddform" -> Look
      [] OTHER            -> FALSE

Obs(e) == \A k \in 1 .. Len(e.obs) : Shows(reg'[e.obs[k].r], e.obs[k])

Next == /\ i < Len(Traces[tr])
        /\ LET e == Traces[tr][i + 1]
           IN /\ ~ ("panic" \in DOMAIN e)
              /\ Act(e)
              /\ Obs(e)
        /\ i' = i + 1
        /\ UNCHANGED tr

Spec == Init /\ [][Next]_vars

Done == i = Len(Traces[tr]) => PrintT(<<"ACC", tr>>)
At == Verbose => PrintT(<<"AT", tr, i>>)
=============================================================================
