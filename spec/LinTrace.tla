------------------------------ MODULE LinTrace ------------------------------
(***************************************************************************)
(* Trace specification of concurrent executions: the recorded history of   *)
(* calls, callbacks and returns must be explainable by Lin.                *)
(***************************************************************************)
EXTENDS Lin, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<tid, l>>
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ LInit
Hd == Traces[tid]
Step(e) ==
  CASE e[1] = "new"   -> New(e[2], e[3])
    [] e[1] = "call"  -> Call(e[2], e[3], e[4], e[5], e[6], e[7], e[8], Hd.sub, Hd.S)
    [] e[1] = "ret"   -> Ret(e[2], e[3])
    [] e[1] = "cbin"  -> CbIn(e[2], e[3], e[4], e[5])
    [] e[1] = "cbout" -> CbOut(e[2], Hd.sub)
    [] e[1] = "quiet" -> Quiet(e[2], e[3], e[4])
    [] OTHER -> FALSE
TraceNext ==
    \/ /\ l <= Len(Hd.ev)
       /\ Step(Hd.ev[l])
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l > Len(Hd.ev)
       /\ UNCHANGED <<tvars, lvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, lvars>>

\* what is shown of a behaviour when a trace is rejected
Brief == [tid |-> tid, l |-> l]
=============================================================================
