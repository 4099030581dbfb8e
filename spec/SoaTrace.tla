------------------------------ MODULE SoaTrace ------------------------------
EXTENDS Soa, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<tid, l>>
Hd == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ rows = <<>>
B(b) == IF b THEN 1 ELSE 0
Step(e) ==
  CASE e[1] = "new"  -> Clear
    [] e[1] = "ins"  -> Insert(e[2])
    [] e[1] = "resz" -> Resize(e[2], Hd.w)
    [] e[1] = "resv" -> UNCHANGED rows
    [] e[1] = "clr"  -> Clear
    [] e[1] = "set"  -> Set(e[2], e[3], e[4])                      \* one field, through whichever access path
    [] e[1] = "put"  -> Replace(e[2], e[3])                        \* a whole row through operator[]
    [] e[1] = "row"  -> e[3] = rows[e[2]] /\ UNCHANGED rows        \* a row read through operator[]
    [] e[1] = "view" -> e[4] = [k \in 1..Len(e[3]) |-> rows[e[2]][e[3][k]]] /\ UNCHANGED rows
    [] e[1] = "col"  -> e[3] = [i \in 1..Len(rows) |-> rows[i][e[2]]] /\ UNCHANGED rows
    [] e[1] = "size" -> e[2] = Len(rows) /\ e[3] = B(rows = <<>>) /\ UNCHANGED rows
    [] e[1] = "all"  -> e[2] = rows /\ UNCHANGED rows              \* everything, also as printed
    [] e[1] = "sort" -> Sort(e[2], e[3], e[4])
    [] OTHER -> FALSE
TraceNext ==
    \/ /\ l <= Len(Hd.ev)
       /\ Step(Hd.ev[l])
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l > Len(Hd.ev)
       /\ UNCHANGED <<tvars, rows>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, rows>>
Whole == \A i \in 1..Len(rows) : Len(rows[i]) = Hd.w

\* what is shown of a behaviour when a trace is rejected
Brief == [tid |-> tid, l |-> l]
=============================================================================
