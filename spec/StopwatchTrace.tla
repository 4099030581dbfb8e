--------------------------- MODULE StopwatchTrace ---------------------------
EXTENDS Stopwatch, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<tid, l>>
Hd == Traces[tid]
N == 4
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1
             /\ now = 0 /\ start = [i \in 1..N |-> 0] /\ snap = [i \in 1..N |-> 0] /\ run = [i \in 1..N |-> FALSE]
Step(e) ==
  CASE e[1] = "tick" -> Tick(e[2])
    [] e[1] = "new"  -> IF e[3] = 1 THEN Start(e[2]) ELSE Idle(e[2])
    [] e[1] = "go"   -> Start(e[2])                              \* start(), or entering a start_snap scope
    [] e[1] = "snap" -> run[e[2]] /\ Snap(e[2])                  \* snap(), or leaving a start_snap scope
    [] e[1] = "read" -> run[e[2]] /\ <<e[3], e[4], e[5]>> = <<SinceStart(e[2]), SinceSnap(e[2]), StartToSnap(e[2])>> /\ UNCHANGED wvars
    [] e[1] = "us"   -> e[3] = SinceStart(e[2]) /\ UNCHANGED wvars                              \* basic_stopwatch, stopwatch N
    [] e[1] = "say"  -> e[3] = e[4] /\ (e[4] = 1 => e[5] = SinceStart(e[2])) /\ UNCHANGED wvars  \* what its destruction printed
    [] OTHER -> FALSE
TraceNext ==
    \/ /\ l <= Len(Hd.ev)
       /\ Step(Hd.ev[l])
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l > Len(Hd.ev)
       /\ UNCHANGED <<tvars, wvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, wvars>>

\* what is shown of a behaviour when a trace is rejected
Brief == [tid |-> tid, l |-> l]
=============================================================================
