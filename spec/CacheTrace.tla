----------------------------- MODULE CacheTrace -----------------------------
(***************************************************************************)
(* Trace specification: recorded executions of lru_cache, mt_lru_cache and *)
(* the memoize family must be behaviours of Cache.                         *)
(***************************************************************************)
EXTENDS Cache, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ CInit
Hd == Traces[tid]
Step(e) ==
  CASE e[1] = "new"   -> New(Hd.S, e[2])
    [] e[1] = "lim"   -> Limit(e[2])
    [] e[1] = "call"  -> Call(e[2], e[3], e[4], e[5], Hd.kind, Hd.sh, Hd.S)
    [] e[1] = "ret"   -> Ret(e[2], e[3])
    [] e[1] = "fin"   -> FnIn(e[2], e[3], Hd.kind, Hd.sh)
    [] e[1] = "fout"  -> FnOut(e[2], e[3], e[4], e[5], Hd.kind, Hd.sh)
    [] e[1] = "quiet" -> Quiet(e[2], e[3], e[4])
    [] OTHER -> FALSE
TraceNext ==
    \/ /\ l <= Len(Hd.ev)
       /\ Step(Hd.ev[l])
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l > Len(Hd.ev)
       /\ UNCHANGED <<tvars, cvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, cvars>>

\* what is shown of a behaviour when a trace is rejected
Brief == [tid |-> tid, l |-> l]
=============================================================================
