------------------------------ MODULE BitTrace ------------------------------
(***************************************************************************)
(* Trace specification of gtl::bit_vector and gtl::bit_view.  Every event  *)
(* that acts on a view carries <<op, c, f, l, ...>>; operations on a whole *)
(* vector are recorded with f = 0, l = its length, and w = 1.              *)
(***************************************************************************)
EXTENDS BitVec, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
NB == 3
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ BInit(NB)
Hd == Traces[tid]
BI(x) == IF x THEN 1 ELSE 0
SetOf(q) == {q[i] : i \in 1..Len(q)}
InRange == \A c \in 1..NB : b[c] \subseteq Pos(0, n[c])
Same == UNCHANGED bvars
View(c, f, t, X) == b' = [b EXCEPT ![c] = Put(@, f, t, X)] /\ UNCHANGED n

Step(e) ==
  LET c == e[2] f == e[3] t == e[4] W == Sub(b[c], f, t) len == t - f IN
  CASE e[1] = "new" -> n' = [n EXCEPT ![c] = e[3]] /\ b' = [b EXCEPT ![c] = IF e[4] = 1 THEN Pos(0, e[3]) ELSE {}]
    [] e[1] = "newl" -> n' = [n EXCEPT ![c] = e[3]] /\ b' = [b EXCEPT ![c] = SetOf(e[4])]
    [] e[1] = "resz" -> n' = [n EXCEPT ![c] = e[3]] /\ b' = [b EXCEPT ![c] = Resized(c, e[3], e[4])]
    [] e[1] = "cpy" -> n' = [n EXCEPT ![c] = n[e[3]]] /\ b' = [b EXCEPT ![c] = b[e[3]]]
    [] e[1] = "swp" -> n' = [n EXCEPT ![c] = n[e[3]], ![e[3]] = n[c]] /\ b' = [b EXCEPT ![c] = b[e[3]], ![e[3]] = b[c]]
    [] e[1] = "bit" ->                  \* c f t op i : op 0 reset 1 set 2 flip
         LET i == e[6] IN
         View(c, f, t, CASE e[5] = 0 -> W \ {i} [] e[5] = 1 -> W \cup {i} [] OTHER -> (IF i \in W THEN W \ {i} ELSE W \cup {i}))
    [] e[1] = "all" -> View(c, f, t, CASE e[5] = 0 -> {} [] e[5] = 1 -> Pos(0, len) [] OTHER -> Pos(0, len) \ W)
    [] e[1] = "bin" ->                  \* c f t op d g : with positions g..g+len-1 of d
         View(c, f, t, Bin(e[5], W, Sub(b[e[6]], e[7], e[7] + len), len))
    [] e[1] = "res" ->                  \* c f t op d r list : binary operator, result copied into r
         /\ n' = [n EXCEPT ![e[7]] = n[c]]
         /\ LET R == CASE e[5] = "not" -> Pos(0, len) \ W [] e[5] = "shl" -> Shl(W, e[6]) [] e[5] = "shr" -> Shr(W, e[6], len)
                        [] OTHER -> Bin(e[5], W, b[e[6]], len)
            IN b' = [b EXCEPT ![e[7]] = R]
    [] e[1] = "shl" -> View(c, f, t, Shl(W, e[5]))
    [] e[1] = "shr" -> View(c, f, t, Shr(W, e[5], len))
    [] e[1] = "put" -> View(c, f, t, SetOf(e[5]))                       \* assigned from integers; e[5]: their bits
    [] e[1] = "putn" -> View(c, f, t, (W \ Pos(0, e[6])) \cup {x \in SetOf(e[5]) : x < e[6]})   \* only the first e[6] positions
    [] e[1] = "see" -> e[3] = n[c] /\ SetOf(e[4]) = b[c] /\ Len(e[4]) = Cardinality(b[c]) /\ e[5] = BI(n[c] = 0) /\ e[6] = (n[c] + 63) \div 64 /\ Same
    [] e[1] = "get" -> e[6] = BI(e[5] \in W) /\ Same
    [] e[1] = "q" ->                    \* c f t any every none count size empty
         /\ e[5] = BI(W # {}) /\ e[6] = BI(W = Pos(0, len)) /\ e[7] = BI(W = {}) /\ e[8] = Cardinality(W) /\ e[9] = len /\ e[10] = BI(len = 0) /\ Same
    [] e[1] = "ff" -> e[5] = First(W, 0) /\ Same
    [] e[1] = "fn" -> e[6] = First(W, e[5]) /\ Same
    [] e[1] = "walk" -> SetOf(e[5]) = W /\ (\A i \in 1..(Len(e[5]) - 1) : e[5][i] < e[5][i+1]) /\ Same
    [] e[1] = "rel" ->                  \* c f t d g h eq ne contains disjoint intersects ; -1 = not asked
         LET V == Sub(b[e[5]], e[6], e[7]) ln2 == e[7] - e[6] mn == IF len < ln2 THEN len ELSE ln2
             dis == (W \cap V) \cap Pos(0, mn) = {} eq == len = ln2 /\ W = V IN
         /\ e[8] \in {-1, BI(eq)} /\ e[9] \in {-1, BI(~eq)} /\ e[10] \in {-1, BI(V \subseteq W)}
         /\ e[11] = BI(dis) /\ e[12] = BI(~dis) /\ Same
    [] e[1] = "hash" -> ((n[c] = n[f] /\ b[c] = b[f]) => t = 1) /\ Same
    [] e[1] = "str" -> e[5] = len /\ SetOf(e[6]) = W /\ Same             \* bits of a string of e[5] characters
    [] e[1] = "hex" -> e[5] = (IF len = 0 THEN 0 ELSE ((len + 7) \div 8) * 2) /\ SetOf(e[6]) = W /\ Same
    [] e[1] = "ull" -> SetOf(e[3]) = {p \in b[c] : p < 64} /\ Same
    [] e[1] = "blk" -> {64 * e[3] + p : p \in SetOf(e[4])} = {p \in b[c] : p \div 64 = e[3]} /\ Same
    [] OTHER -> FALSE

TraceNext ==
    \/ /\ l <= Len(Hd.ev)
       /\ Len(Hd.ev[l]) > 2 /\ Step(Hd.ev[l])
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l > Len(Hd.ev)
       /\ UNCHANGED <<tid, l, bvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, bvars>>

\* what is shown of a behaviour when a trace is rejected
Brief == [tid |-> tid, l |-> l]
=============================================================================
