------------------------------ MODULE ListsTrace ------------------------------
EXTENDS Lists, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<tid, l>>
Hd == Traces[tid]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ lists = [i \in 1..4 |-> <<>>]
Step(e) ==
  CASE e[1] = "put" -> Set(e[2], e[3])
    [] e[1] = "sli" -> InDomain(lists[e[2]], e[3], e[4], e[5]) /\ e[6] = Slice(lists[e[2]], e[3], e[4], e[5]) /\ UNCHANGED lists
    [] e[1] = "cat" -> e[3] = Cat(e[2]) /\ UNCHANGED lists
    \* what the function was called with, in order, and the results
    [] e[1] = "map" -> e[6] = lists[e[2]] /\ e[7] = Map(lists[e[2]], e[3], e[4], e[5]) /\ UNCHANGED lists
    \* a slice or concatenation assigned to a list variable, as recursive algorithms do
    [] e[1] = "csl" -> /\ e[6] = FlattenSeq(<<Slice(lists[e[2]], 0, e[4], 1), Slice(lists[e[3]], e[5], -1, 1)>>) /\ Set(e[2], e[6])
    [] e[1] = "see" -> e[2] = lists /\ UNCHANGED lists
    [] e[1] = "fin" -> e[2] = 0 /\ UNCHANGED lists             \* elements still alive when every list is gone
    [] OTHER -> FALSE
TraceNext ==
    \/ /\ l <= Len(Hd.ev)
       /\ Step(Hd.ev[l])
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l > Len(Hd.ev)
       /\ UNCHANGED <<tvars, lvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, lvars>>

\* what is shown of a behaviour when a trace is rejected
Brief == [tid |-> tid, l |-> l]
=============================================================================
