----------------------------- MODULE BTreeTrace -----------------------------
(***************************************************************************)
(* Trace specification of the B-tree containers: every recorded call must  *)
(* be an action of BTree with the recorded results.                        *)
(***************************************************************************)
EXTENDS BTree, TLC, Json, IOUtils, AllocProp

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES
    tid, l,
    o            \* o[c] : the order container c sorts by; it travels with copies, moves and swaps
tvars == <<tid, l, o>>
NC == 3
NH == 2
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ o = Traces[tid].ords /\ BInit(NC, NH)

Hd == Traces[tid]
multi == Hd.multi = 1
BI(b) == IF b THEN 1 ELSE 0
NoE == <<-1, -1>>
\* the entry an iterator at position p designates, end being reported as -1 -1
AtPos(q, p) == IF p >= 0 /\ p < Len(q) THEN q[p+1] ELSE NoE
Flat(q) == [i \in 1..(2 * Len(q)) |-> q[(i+1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Keys1(q) == [i \in 1..Len(q) |-> q[i][1]]
Pair(q, i) == <<q[2*i-1], q[2*i]>>
Unflat(q) == [i \in 1..(Len(q) \div 2) |-> Pair(q, i)]

Step(e) ==
  LET c == e[2]
      ord == o[c]
      sz == e[Len(e)]
      q == s[c]
      SzOk == Len(s'[c]) = sz
      L(k) == LB(q, ord, k)
      U(k) == UB(q, ord, k)
      In(k) == Holds(q, ord, k)
  IN
  CASE e[1] = "ins" ->                       \* c k v hinted fl pos rk rv sz
         LET k == e[3] v == e[4] p == e[7] IN
         IF ~multi /\ In(k)
         THEN /\ e[6] \in {0, 2} /\ p = L(k) /\ <<e[8], e[9]>> = q[p+1] /\ BSame /\ SzOk
         ELSE /\ e[6] \in {1, 2} /\ <<e[8], e[9]>> = <<k, v>>
              /\ IF multi /\ e[5] = 1 THEN p >= L(k) /\ p <= U(k) ELSE p = U(k)
              /\ InsertPos(c, p, <<k, v>>) /\ SzOk
    [] e[1] = "idx" ->                       \* c k old v sz  (unique maps)
         LET k == e[3] v == e[5] p == L(k) IN
         /\ e[4] = (IF In(k) THEN q[p+1][2] ELSE 0)
         /\ LET q2 == IF In(k) THEN q ELSE InsAt(q, p, <<k, 0>>) IN
            Become(c, IF v = -2 THEN q2 ELSE [q2 EXCEPT ![p+1][2] = v])
         /\ SzOk
    [] e[1] = "insl" -> Become(c, AddList(q, ord, multi, e[3], 1)) /\ SzOk
    [] e[1] = "new"  -> Become(c, AddList(<<>>, e[4], multi, e[3], 1)) /\ SzOk      \* c list order sz
    [] e[1] = "ordof" -> q = <<>> /\ BSame                                        \* an emptied moved-from container may sort either way
    [] e[1] = "comp" -> LET lt == BI(Rank(ord, e[3]) < Rank(ord, e[4])) IN e[5] = lt /\ e[6] = lt /\ BSame /\ SzOk
    [] e[1] = "find" ->                      \* c k pos rk rv sz
         LET k == e[3] p == e[4] IN
         /\ IF In(k) THEN p >= L(k) /\ p < U(k) ELSE p = -1
         /\ <<e[5], e[6]>> = AtPos(q, p) /\ BSame /\ SzOk
    [] e[1] = "has" -> e[4] = BI(In(e[3])) /\ BSame /\ SzOk
    [] e[1] = "cnt" -> e[4] = U(e[3]) - L(e[3]) /\ BSame /\ SzOk
    [] e[1] = "lb" -> e[4] = L(e[3]) /\ <<e[5], e[6]>> = AtPos(q, e[4]) /\ BSame /\ SzOk
    [] e[1] = "ub" -> e[4] = U(e[3]) /\ <<e[5], e[6]>> = AtPos(q, e[4]) /\ BSame /\ SzOk
    [] e[1] = "eqr" -> e[4] = L(e[3]) /\ e[5] = U(e[3]) /\ e[6] = e[5] - e[4] /\ BSame /\ SzOk
    [] e[1] = "at" -> e[4] = (IF In(e[3]) THEN q[L(e[3]) + 1][2] ELSE -1) /\ BSame /\ SzOk
    [] e[1] = "erk" -> e[4] = U(e[3]) - L(e[3]) /\ EraseRange(c, L(e[3]), U(e[3])) /\ SzOk
    [] e[1] = "eri" ->                       \* c p nextpos nk nv sz
         /\ e[4] = e[3] /\ EraseRange(c, e[3], e[3] + 1)
         /\ <<e[5], e[6]>> = AtPos(s'[c], e[4]) /\ SzOk
    [] e[1] = "err" ->                       \* c a b nextpos nk nv sz
         /\ e[5] = e[3] /\ EraseRange(c, e[3], e[4])
         /\ <<e[6], e[7]>> = AtPos(s'[c], e[5]) /\ SzOk
    [] e[1] = "eif" ->                       \* c a b called sz : the predicate sees every entry once
         /\ Bag(e[5]) = Bag(Keys1(q)) /\ Keep(c, e[3], e[4]) /\ SzOk
    [] e[1] = "clr" -> Become(c, <<>>) /\ SzOk
    [] e[1] = "it" ->                        \* c fwd bwd empty sz
         /\ e[3] = Flat(q) /\ e[4] = Flat(Rev(q)) /\ e[5] = BI(q = <<>>) /\ BSame /\ SzOk
    [] e[1] = "bins" ->                      \* c lo hi st dir v n sz
         LET lo == e[3] hi == e[4] st == e[5]
             k0 == IF e[6] = 1 THEN lo ELSE lo + ((hi - 1 - lo) \div st) * st IN
         /\ Become(c, IF hi - lo > 100 * st /\ (ord \in {1, -1} \/ st > 1) THEN AddLong(q, ord, multi, st, lo, hi, e[7])
                      ELSE AddRun(q, ord, multi, k0, e[6] * st, lo, hi, e[7]))
         /\ e[8] = Len(s'[c]) - Len(q) /\ SzOk
    [] e[1] = "ber" ->                       \* c lo hi st n sz
         /\ Become(c, DelRun(q, ord, e[3], e[5], e[4])) /\ e[6] = Len(q) - Len(s'[c]) /\ SzOk
    [] e[1] = "cpy" -> Copy(c, e[3]) /\ Len(s'[e[3]]) = e[4] /\ SzOk
    [] e[1] = "mov" -> Move(c, e[3]) /\ e[4] = 0 /\ SzOk
    [] e[1] = "al" -> AllocEv(e) /\ BSame       \* kind x y given x2 y2 traits
    [] e[1] = "swp" -> Swap(c, e[3]) /\ Len(s'[e[3]]) = e[4] /\ SzOk
    [] e[1] = "cmp" ->                       \* c d eq ne lt gt le ge sz
         LET b == s[e[3]] lt == LexLess(q, b) gt == LexLess(b, q) IN
         /\ e[4] = BI(q = b) /\ e[5] = BI(q # b) /\ e[6] = BI(lt) /\ e[7] = BI(gt)
         /\ e[8] = BI(~gt) /\ e[9] = BI(~lt) /\ BSame /\ SzOk
    [] e[1] = "extk" ->                      \* c k slot nk nv sz
         LET k == e[3] n == <<e[5], e[6]>> IN
         IF ~In(k) THEN n = NoE /\ h' = [h EXCEPT ![e[4]] = <<>>] /\ UNCHANGED s /\ SzOk
         ELSE \E p \in {CHOOSE p \in L(k)..U(k) : p = U(k) \/ q[p+1] = n} :
              /\ p < U(k) /\ Extract(c, p, e[4]) /\ SzOk
    [] e[1] = "exti" -> <<e[5], e[6]>> = AtPos(q, e[3]) /\ Extract(c, e[3], e[4]) /\ SzOk
    [] e[1] = "inn" ->                       \* c slot hinted fl pos rk rv stillk stillv sz
         LET i == e[3] n == h[i] p == e[6] IN
         IF n = <<>> THEN e[5] \in {0, 2} /\ p = -1 /\ <<e[7], e[8], e[9], e[10]>> = <<-1, -1, -1, -1>> /\ BSame /\ SzOk
         ELSE IF ~multi /\ In(n[1])
         THEN /\ e[5] \in {0, 2} /\ p = L(n[1]) /\ <<e[7], e[8]>> = q[p+1] /\ <<e[9], e[10]>> = n /\ BSame /\ SzOk
         ELSE /\ e[5] \in {1, 2} /\ <<e[7], e[8]>> = n /\ e[9] = -1 /\ e[10] = -1
              /\ IF multi /\ e[4] = 1 THEN p >= L(n[1]) /\ p <= U(n[1]) ELSE p = U(n[1])
              /\ s' = [s EXCEPT ![c] = InsAt(@, p, n)] /\ h' = [h EXCEPT ![i] = <<>>] /\ SzOk
    [] e[1] = "mrg" ->                       \* c d list szd szc
         LET d == e[3] r == Unflat(e[4]) src == s[d] IN
         IF multi
         THEN /\ Sorted(r, ord, TRUE) /\ Bag(r) = BagOf2(q, src) /\ SubSeqOf(q, 1, r, 1)
              /\ IF o[d] = ord THEN SubSeqOf(src, 1, r, 1)
                 ELSE \A k \in {src[i][1] : i \in 1..Len(src)} : SubSeqOf(SelectSeq(src, LAMBDA x : x[1] = k), 1, r, 1)
              /\ e[5] = 0 /\ s' = [s EXCEPT ![c] = r, ![d] = <<>>] /\ UNCHANGED h /\ SzOk
         ELSE /\ r = MergeU(q, src, ord, 1)
              /\ s' = [s EXCEPT ![c] = r, ![d] = SelectSeq(src, LAMBDA x : Holds(q, ord, x[1]))] /\ UNCHANGED h
              /\ Len(s'[d]) = e[5] /\ SzOk
    [] OTHER -> FALSE

NodeMove(e) ==                               \* s t nk(s) nk(t) nv(t)
    /\ e[4] = -1 /\ <<e[5], e[6]>> = (IF h[e[2]] = <<>> THEN NoE ELSE h[e[2]])
    /\ h' = [h EXCEPT ![e[3]] = h[e[2]], ![e[2]] = <<>>] /\ UNCHANGED s

(* as many objects are alive as the containers and handles hold; in the end nothing is left *)
Account(e) == e[2] = Hd.objs * (Len(s[1]) + Len(s[2]) + Len(s[3]) + Cardinality({i \in 1..NH : h[i] # <<>>})) /\ BSame
Final(e) == e[2] = 0 /\ e[3] = 0 /\ e[4] = 0 /\ BSame

Order(e) ==
    CASE e[1] \in {"cpy", "mov"} -> [o EXCEPT ![e[2]] = o[e[3]]]
      [] e[1] = "swp" -> [o EXCEPT ![e[2]] = o[e[3]], ![e[3]] = o[e[2]]]
      [] e[1] = "new" -> [o EXCEPT ![e[2]] = e[4]]
      [] e[1] = "ordof" -> [o EXCEPT ![e[2]] = e[3]]
      [] OTHER -> o

TraceNext ==
    \/ /\ l <= Len(Hd.ev)
       /\ IF Hd.ev[l][1] = "nmov" THEN NodeMove(Hd.ev[l])
          ELSE IF Hd.ev[l][1] = "acct" THEN Account(Hd.ev[l])
          ELSE IF Hd.ev[l][1] = "fin" THEN Final(Hd.ev[l])
          ELSE /\ Len(Hd.ev[l]) > 2 /\ Step(Hd.ev[l])
       /\ l' = l + 1 /\ o' = Order(Hd.ev[l])
       /\ UNCHANGED tid
    \/ /\ l > Len(Hd.ev)
       /\ UNCHANGED <<tvars, bvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, bvars>>

\* the representation invariant of the abstract state, in every state of every trace
SortedInv == \A c \in 1..NC : Sorted(s[c], o[c], multi)

\* what is shown of a behaviour when a trace is rejected
Brief == [tid |-> tid, l |-> l]
=============================================================================
