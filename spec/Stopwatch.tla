------------------------------ MODULE Stopwatch ------------------------------
(* Stopwatches (stopwatch.hpp) over one clock, in clock ticks.  `now` is the clock; a stopwatch remembers when it was
   started and when the last snapshot was taken (starting takes one).  A start_snap scope starts its stopwatch when it
   is entered and takes a snapshot when it is left. *)
EXTENDS Integers, Sequences
VARIABLES now, start, snap, run
wvars == <<now, start, snap, run>>
\* run[i]: has stopwatch i been started (one constructed with do_start = false has not)
Tick(d) == now' = now + d /\ UNCHANGED <<start, snap, run>>
Start(i) == start' = [start EXCEPT ![i] = now] /\ snap' = [snap EXCEPT ![i] = now] /\ run' = [run EXCEPT ![i] = TRUE] /\ UNCHANGED now
Snap(i) == snap' = [snap EXCEPT ![i] = now] /\ UNCHANGED <<now, start, run>>
Idle(i) == run' = [run EXCEPT ![i] = FALSE] /\ UNCHANGED <<now, start, snap>>
SinceStart(i) == now - start[i]
SinceSnap(i) == now - snap[i]
StartToSnap(i) == snap[i] - start[i]
=============================================================================
