------------------------------ MODULE UtilsTrace ------------------------------
EXTENDS Utils, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<tid, l>>
Hd == Traces[tid]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1
             /\ val = [i \in 1..6 |-> 0] /\ stk = <<>> /\ ph = "run"
             /\ ts = [i \in 1..6 |-> Zero] /\ clk = Zero
Kind(k) == CASE k = 1 -> "guard" [] k = 2 -> "su" [] k = 3 -> "sv"
Step(e) ==
  CASE e[1] = "enter" -> Enter(e[2], Kind(e[3]), e[4] = 1, e[5], e[6])
    [] e[1] = "made"  -> Made(e[2])
    [] e[1] = "act"   -> Act(e[2], e[3], e[4])
    [] e[1] = "sthr"  -> SetThrows(e[2])
    [] e[1] = "dis"   -> Dismiss(e[2])
    [] e[1] = "leave" -> Leave(e[2])
    [] e[1] = "left"  -> Left(e[2], e[3])
    [] e[1] = "put"   -> Assign(e[2], e[3])
    [] e[1] = "chg"   -> Change(e[2], e[3], e[4], e[5])
    [] e[1] = "rep"   -> Replace(e[2], e[3], e[4])
    [] e[1] = "see"   -> See(e[2])
    [] e[1] = "tnew"  -> Fresh(e[2], e[3])                       \* default construction
    [] e[1] = "touch" -> Fresh(e[2], e[3])
    [] e[1] = "traw"  -> e[3] = e[4] /\ Stamp(e[2], e[3])        \* construction from a number
    [] e[1] = "tfrom" -> e[4] = ts[e[3]] /\ Stamp(e[2], e[4])    \* touch(other), copies
    [] e[1] = "tres"  -> e[3] = Zero /\ Stamp(e[2], Zero)
    [] e[1] = "tcmp"  -> e[4] = Compare(ts[e[2]], ts[e[3]]) /\ UNCHANGED uvars
    [] e[1] = "pcmp"  -> e[4] = SubSeq(Compare(ts[e[2]], ts[e[3]]), 1, 2) /\ e[5] = Later(ts[e[2]], ts[e[3]]) /\ UNCHANGED uvars
    [] e[1] = "tor"   -> e[4] = Later(ts[e[2]], ts[e[3]]) /\ UNCHANGED uvars
    [] e[1] = "tors"  -> e[4] = Later(ts[e[2]], ts[e[3]]) /\ Stamp(e[2], e[4])
    [] e[1] = "tget"  -> e[3] = ts[e[2]] /\ UNCHANGED uvars
    [] e[1] = "tset"  -> SetWithTs(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "bs"    -> Search(e[2], e[3], e[4], e[5], e[6], e[7], e[8])
    [] e[1] = "bsg"   -> SearchGap(e[2], e[3], e[4], e[5], e[6], e[7])
    [] OTHER -> FALSE
TraceNext ==
    \/ /\ l <= Len(Hd.ev)
       /\ Step(Hd.ev[l])
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l > Len(Hd.ev)
       /\ UNCHANGED <<tvars, uvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, uvars>>

\* what is shown of a behaviour when a trace is rejected
Brief == [tid |-> tid, l |-> l]
=============================================================================
