---------------------------- MODULE RefcountTrace ----------------------------
(***************************************************************************)
(* Trace specification of intrusive_ptr / intrusive_ref_counter.           *)
(***************************************************************************)
EXTENDS Refcount, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<tid, l>>
Hd == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ RInit(Traces[tid].slots, Traces[tid].objs)

B(b) == IF b THEN 1 ELSE 0
\* what the driver sees after every call: the object each slot refers to, the count of each object (-1: destroyed), the values
Seen(e, k) ==
    /\ e[k] = [i \in 1..Len(ptr') |-> ptr'[i]]
    /\ e[k+1] = [o \in 1..Len(raw') |-> IF o \in alive' THEN Refs(ptr', raw', o) ELSE -1]
    /\ e[k+2] = [o \in 1..Len(raw') |-> IF o \in alive' THEN val'[o] ELSE -1]
Cmp(i, j, r) ==
    /\ r = <<B(ptr[i] = ptr[j]), B(ptr[i] # ptr[j]), B(ptr[i] = 0), B(ptr[i] # 0), B(ptr[j] = 0)>>
    /\ UNCHANGED rvars
\* order: irreflexive, total on distinct pointers, and consistent with the addresses
Less(i, j, lij, lji, aij) == /\ lij = aij /\ (ptr[i] = ptr[j] => lij = 0 /\ lji = 0) /\ (ptr[i] # ptr[j] => lij + lji = 1) /\ UNCHANGED rvars
HashEq(i, j, h) == (ptr[i] = ptr[j] => h = 1) /\ UNCHANGED rvars
Quiet(counts) == /\ rel = {}
                 /\ counts = [o \in 1..Len(raw) |-> IF o \in alive THEN Count(o) ELSE -1]
                 /\ UNCHANGED rvars
Final(live) == live = 0 /\ alive = {} /\ UNCHANGED rvars
Step(e) ==
  CASE e[1] = "make"  -> Make(e[2], e[3], e[4], e[5]) /\ Seen(e, 6)
    [] e[1] = "copy"  -> Copy(e[2], e[3]) /\ Seen(e, 4)
    [] e[1] = "move"  -> Move(e[2], e[3]) /\ Seen(e, 4)
    [] e[1] = "swap"  -> Swap(e[2], e[3]) /\ Seen(e, 4)
    [] e[1] = "reset" -> Reset(e[2]) /\ Seen(e, 3)
    [] e[1] = "point" -> Point(e[2], e[3]) /\ Seen(e, 4)
    [] e[1] = "det"   -> e[3] = ptr[e[2]] /\ Detach(e[2]) /\ Seen(e, 4)
    [] e[1] = "adopt" -> Adopt(e[2], e[3]) /\ Seen(e, 4)
    [] e[1] = "dync"  -> DynCopy(e[2], e[3]) /\ Seen(e, 4)
    [] e[1] = "dynm"  -> DynMove(e[2], e[3]) /\ Seen(e, 4)
    [] e[1] = "write" -> Write(e[2], e[3]) /\ Seen(e, 4)
    [] e[1] = "assign"-> Assign(e[2], e[3]) /\ Seen(e, 4)
    [] e[1] = "cmp"   -> Cmp(e[2], e[3], e[4])
    [] e[1] = "less"  -> Less(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "hash"  -> HashEq(e[2], e[3], e[4])
    [] e[1] = "relb"  -> RelBegin(e[2])
    [] e[1] = "rele"  -> RelEnd(e[2])
    [] e[1] = "dtor"  -> Destroyed(e[2])
    [] e[1] = "share" -> Share(e[2], e[3])
    [] e[1] = "use"   -> Use(e[2], e[3])
    [] e[1] = "quiet" -> Quiet(e[2])
    [] e[1] = "fin"   -> Final(e[2])
    [] OTHER -> FALSE
TraceNext ==
    \/ /\ l <= Len(Hd.ev)
       /\ Step(Hd.ev[l])
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l > Len(Hd.ev)
       /\ UNCHANGED <<tvars, rvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, rvars>>

\* what is shown of a behaviour when a trace is rejected
Brief == [tid |-> tid, l |-> l]
=============================================================================
