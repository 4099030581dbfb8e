----------------------------- MODULE HashTrace -----------------------------
(***************************************************************************)
(* Trace specification: every recorded call of the real containers must be *)
(* an action of HashMap with the recorded results.  A state in which the   *)
(* next event is not allowed deadlocks, which is how TLC reports it.       *)
(***************************************************************************)
EXTENDS HashMap, TLC, Json, IOUtils, AllocProp

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, arch      \* arch[f]: the contents (and size bound) dumped into archive f
tvars == <<tid, l, arch>>

NC == 3
NH == 2

TraceInit ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1 /\ arch = <<<<>>, <<>>>>
    /\ HInit(Traces[tid].K, NC, NH)

Hd == Traces[tid]
node == Hd.node = 1
par  == Hd.par = 1
isM  == Hd.map = 1

\* result reporting: -2 / fl 2 mean "this form of the call does not report it"
FlagOk(fl, b) == fl = 2 \/ fl = b
IterOk(qk, qv, k, v) == \/ qk = -2 /\ qv = -2
                        \/ qk = k /\ qv = v
BI(b) == IF b THEN 1 ELSE 0
SzOk(c, s) == n'[c] = s

Seen(c, k) == IF Has(c, k) THEN Val(c, k) ELSE -1
SubKeys(q) == UNION {KeySet(q[i]) : i \in 1..Len(q)}
RECURSIVE SumLen(_, _)
SumLen(q, i) == IF i > Len(q) THEN 0 ELSE Len(q[i]) + SumLen(q, i+1)
InRun(k, lo, hi, st) == k >= lo /\ k < hi /\ (k - lo) % st = 0
InStep(lo, hi, st) == {k \in lo..(hi-1) : (k - lo) % st = 0}

\* what a failed call on c (and d) may have left in container x: g
Leftover(x, g, c, kind, d) ==
    IF x = c /\ kind \in {3, 4} THEN {i \in 1..Hd.K : m[x][i] # None /\ g[i] # m[x][i]} = {}
    ELSE IF (x = c /\ kind = 2) \/ (x = d /\ kind = 4) THEN {i \in 1..Hd.K : g[i] \notin {None, m[x][i]}} = {}
    ELSE (x \in {c, d} /\ kind = 0) \/ g = m[x]

Step(e) ==
  LET c == e[2]
      sz == e[Len(e)]
  IN
  CASE e[1] = "ins" ->                       \* c k v var fl rk rv sz
         LET k == e[3] v == e[4] IN
         /\ FlagOk(e[6], BI(~Has(c, k)))
         /\ IterOk(e[7], e[8], k, IF Has(c, k) THEN Val(c, k) ELSE v)
         \* the range forms (13, 14) may reserve for entries that turn out to be present
         /\ IF e[5] \in {13, 14} THEN InsertList(c, <<k, v>>, node) ELSE Insert(c, k, v, node)
         /\ SzOk(c, sz)
    [] e[1] = "get" ->                       \* c k var v sz
         LET k == e[3] r == e[5] IN
         /\ \/ r = -1 /\ ~Has(c, k)
            \/ r = -3 /\ Has(c, k)
            \/ r >= 0 /\ Has(c, k) /\ Val(c, k) = r
         /\ Same /\ SzOk(c, sz)
    [] e[1] = "erk" ->                       \* c k n sz
         /\ e[4] = BI(Has(c, e[3]))
         /\ EraseKey(c, e[3], node) /\ SzOk(c, sz)
    [] e[1] = "asg" ->                       \* c k v var fl rk rv sz
         LET k == e[3] v == e[4] IN
         /\ FlagOk(e[6], BI(~Has(c, k)))
         /\ IterOk(e[7], e[8], k, v)
         /\ Assign(c, k, v, node) /\ SzOk(c, sz)
    [] e[1] = "idx" ->                       \* c k old v sz
         LET k == e[3] old == e[4] v == e[5] IN
         /\ old = (IF Has(c, k) THEN Val(c, k) ELSE 0)
         /\ IF v = -2 THEN Insert(c, k, 0, node) ELSE Assign(c, k, v, node)
         /\ SzOk(c, sz)
    [] e[1] = "insl" -> InsertList(c, e[3], node) /\ SzOk(c, sz)
    [] e[1] = "eri" ->                       \* c k var want next sz
         /\ Has(c, e[3]) /\ e[5] = e[6]
         /\ e[5] = -1 \/ (e[5] # e[3] /\ Has(c, e[5]))
         /\ EraseKey(c, e[3], node) /\ SzOk(c, sz)
    [] e[1] = "trav" ->                      \* c visited erased sz
         /\ ListsAll(c, e[3])
         /\ Remove(c, {e[4][i] : i \in 1..Len(e[4])}, node) /\ SzOk(c, sz)
    [] e[1] = "err" ->                       \* c a b list reskey sz
         LET a == e[3] b == e[4] q == e[5] IN
         /\ ListsAll(c, q)
         /\ e[6] = (IF 2*b < Len(q) THEN q[2*b+1] ELSE -1)
         /\ Remove(c, KeySet(SubSeq(q, 2*a+1, 2*b)), node) /\ SzOk(c, sz)
    [] e[1] = "eif" ->                       \* c a b n called sz
         \E S \in {{k \in KeysOf(c) : k % e[3] = e[4]}} :
         /\ IsKeys(c, e[6]) /\ e[5] = Cardinality(S)
         /\ Remove(c, S, node) /\ SzOk(c, sz)
    [] e[1] = "held" ->                      \* c k rk rv same sz
         /\ Has(c, e[3]) /\ e[4] = e[3] /\ e[5] = Val(c, e[3]) /\ e[6] = 1
         /\ Same /\ SzOk(c, sz)
    [] e[1] = "sufx" -> /\ ListsAll(c, e[3]) /\ IsSuffixOf(e[4], e[3]) /\ Len(e[4]) >= 2
                        /\ Same /\ SzOk(c, sz)
    [] e[1] = "it" ->                        \* c list empty dist sz
         /\ ListsAll(c, e[3]) /\ e[4] = BI(n[c] = 0) /\ e[5] = n[c]
         /\ Same /\ SzOk(c, sz)
    [] e[1] = "sz" -> e[3] = BI(n[c] = 0) /\ Same /\ SzOk(c, sz)
    [] e[1] = "adr" -> SeeAddr(c, e[3], node) /\ SzOk(c, sz)
    [] e[1] = "cap" ->                       \* c cap bucketeq load sz
         LET cap == e[3] IN
         /\ e[4] = 1
         /\ IF par THEN n[c] <= cap ELSE LoadOk(n[c], cap) /\ BoundOk(c, cap)
         /\ IF cap = 0 THEN e[5] = 0
            ELSE e[5] - (n[c] * 10000) \div cap \in -1..1
         /\ cp[c] = 0 \/ cp[c] = cap \/ pin[c] < 0
         /\ Same /\ SzOk(c, sz)
    [] e[1] = "resv" ->                      \* c n cap sz
         /\ par \/ (e[4] >= e[3] /\ LoadOk(Max(n[c], e[3]), e[4]) /\ e[4] <= 8 * Max(mx[c], e[3]) + 15)
         /\ Reserve(c, e[3], e[4], par, node) /\ SzOk(c, sz)
    [] e[1] = "reh" ->                       \* c n cap sz
         /\ par \/ (e[4] >= e[3] /\ LoadOk(n[c], e[4]) /\ (e[3] = 0 => e[4] <= 4 * n[c] + 15))
         /\ Rehash(c, e[3], node) /\ SzOk(c, sz)
    [] e[1] = "clr" -> Clear(c) /\ SzOk(c, sz)
    [] e[1] = "bins" ->                      \* c lo hi st v n sz
         \* (the quantifiers over singletons make TLC evaluate their elements once)
         \E f \in {[i \in DOMAIN m[c] |-> IF m[c][i] = None /\ InRun(i - 1, e[3], e[4], e[5]) THEN e[6] ELSE m[c][i]]} :
         /\ Become(c, f, IF node THEN ad[c] ELSE NoAddr(Len(f)))
         /\ e[7] = n'[c] - n[c]
         /\ mx' = [mx EXCEPT ![c] = Max(@, n'[c])]
         /\ UNCHANGED h /\ SzOk(c, sz)
    [] e[1] = "ber" ->                       \* c lo hi st n sz
         \E A \in {{k \in InStep(e[3], e[4], e[5]) : Has(c, k)}} :
         /\ e[6] = Cardinality(A) /\ Remove(c, A, node) /\ SzOk(c, sz)
    [] e[1] = "bget" ->
         /\ e[6] = Cardinality({k \in InStep(e[3], e[4], e[5]) : Has(c, k)})
         /\ Same /\ SzOk(c, sz)
    [] e[1] = "churn" ->                     \* c inserted erased capmax sz
         /\ e[3] = e[4] /\ (par \/ e[5] <= 8 * (mx[c] + 1) + 15)
         /\ mx' = [mx EXCEPT ![c] = Max(@, n[c] + 1)]
         /\ pin' = [pin EXCEPT ![c] = -1] /\ cp' = [cp EXCEPT ![c] = 0]
         /\ ad' = IF node THEN ad ELSE [ad EXCEPT ![c] = NoAddr(Len(m[c]))]
         /\ UNCHANGED <<m, n, h>> /\ SzOk(c, sz)
    [] e[1] = "new" -> Build(c, e[3]) /\ SzOk(c, sz)
    [] e[1] = "cpy" -> Copy(c, e[3]) /\ SzOk(c, sz) /\ SzOk(e[3], e[5])
    [] e[1] = "mov" -> Move(c, e[3], e[5] = 1, node) /\ SzOk(c, sz) /\ SzOk(e[3], e[6])
    [] e[1] = "al" -> AllocEv(e) /\ Same        \* kind x y given x2 y2 traits
    [] e[1] = "swp" -> Swap(c, e[3], node) /\ SzOk(c, sz) /\ SzOk(e[3], e[5])
    [] e[1] = "eq" -> /\ e[4] = BI(Equal(c, e[3])) /\ e[5] = 1 - e[4]
                      /\ Same /\ SzOk(c, sz)
    [] e[1] = "mrg" -> Merge(c, e[3], node) /\ SzOk(c, sz) /\ SzOk(e[3], e[4])
    [] e[1] = "ext" ->                       \* c k slot var nk nv sz
         /\ e[6] = (IF Has(c, e[3]) THEN e[3] ELSE -1) /\ e[7] = Seen(c, e[3])
         /\ Extract(c, e[3], e[4], node) /\ SzOk(c, sz)
    [] e[1] = "nmov" ->                      \* s t nk(s) nk(t) nv(t)
         /\ MoveNode(e[2], e[3])
         /\ e[4] = h'[e[2]][1] /\ e[5] = h'[e[3]][1] /\ e[6] = h'[e[3]][2]
    [] e[1] = "nswp" ->
         /\ SwapNode(e[2], e[3])
         /\ e[4] = h'[e[2]][1] /\ e[5] = h'[e[3]][1] /\ e[6] = h'[e[3]][2]
    [] e[1] = "inn" ->                       \* c s var fl qk qv stillk stillv sz
         LET s == e[3] k == h[s][1] ok == k # None /\ ~Has(c, k) IN
         /\ FlagOk(e[5], BI(ok))
         /\ e[6] = k
         /\ e[7] = (IF k = None THEN -1 ELSE IF ok THEN h[s][2] ELSE Val(c, k))
         /\ InsertNode(c, s, node)
         /\ e[8] = h'[s][1] /\ e[9] = h'[s][2]
         /\ SzOk(c, sz)
    [] e[1] = "ifc" ->                       \* c k b called seen sz
         /\ e[4] = BI(Has(c, e[3])) /\ e[5] = e[4] /\ e[6] = Seen(c, e[3])
         /\ Same /\ SzOk(c, sz)
    [] e[1] = "modif" ->                     \* c k v b called seen sz
         /\ e[5] = BI(Has(c, e[3])) /\ e[6] = e[5] /\ e[7] = Seen(c, e[3])
         /\ IF Has(c, e[3]) /\ isM THEN Set(c, e[3], e[4]) ELSE Same
         /\ SzOk(c, sz)
    [] e[1] = "erif" ->                      \* c k yes b called seen sz
         /\ e[5] = BI(Has(c, e[3]) /\ e[4] = 1)
         /\ e[6] = BI(Has(c, e[3])) /\ e[7] = Seen(c, e[3])
         /\ IF Has(c, e[3]) /\ e[4] = 1 THEN EraseKey(c, e[3], node) ELSE Same
         /\ SzOk(c, sz)
    [] e[1] = "upsert" ->                    \* c k v inserted cex cem seen sz
         /\ e[5] = BI(~Has(c, e[3])) /\ e[6] = 1 - e[5] /\ e[7] = e[5] /\ e[8] = Seen(c, e[3])
         /\ IF Has(c, e[3]) /\ ~isM THEN Same ELSE Assign(c, e[3], e[4], node)
         /\ SzOk(c, sz)
    [] e[1] = "tog" ->                       \* c k v constructed sz
         /\ e[5] = BI(~Has(c, e[3]))
         /\ IF Has(c, e[3]) THEN EraseKey(c, e[3], node) ELSE Put(c, e[3], e[4], node)
         /\ SzOk(c, sz)
    [] e[1] = "each" ->                      \* c list delta sz
         /\ ListsAll(c, e[3])
         /\ m' = [m EXCEPT ![c] = [i \in DOMAIN m[c] |-> IF m[c][i] = None THEN None ELSE m[c][i] + e[4]]]
         /\ UNCHANGED <<n, h, ad, pin, cp, mx>> /\ SzOk(c, sz)
    [] e[1] = "subs" ->                      \* c <<list,..>> sz
         /\ \A i \in 1..Len(e[3]) : \A j \in 1..(Len(e[3][i]) \div 2) :
              Has(c, e[3][i][2*j-1]) /\ Val(c, e[3][i][2*j-1]) = e[3][i][2*j]
         /\ SubKeys(e[3]) = KeysOf(c) /\ SumLen(e[3], 1) = 2 * n[c]
         /\ Same /\ SzOk(c, sz)
    [] e[1] = "ersub" ->                     \* c list a sz
         LET S == {e[3][i] : i \in 1..Len(e[3])} IN
         /\ Cardinality(S) = Len(e[3]) /\ \A k \in S : k % e[4] = 0
         /\ Remove(c, S, node) /\ SzOk(c, sz)
    (* a call threw: q[x] lists container x, hs the node handles, ss the sizes *)
    [] e[1] = "thr" ->                       \* c kind d q hs ss
         LET kind == e[3] d == e[4] q == e[5] ss == e[7] IN
         \E f \in {[x \in 1..NC |-> InsAll(Empty(Hd.K), q[x], 1)]} :
         /\ \A x \in 1..NC : Len(q[x]) = 2 * ss[x] /\ Cardinality(KeySet(q[x])) = ss[x]
         /\ e[6] = <<h[1][1], h[1][2], h[2][1], h[2][2]>>
         /\ \A x \in 1..NC :
               Leftover(x, f[x], c, kind, d)
         /\ m' = f /\ n' = [x \in 1..NC |-> ss[x]] /\ h' = h
         /\ ad' = [x \in 1..NC |-> IF node /\ ~(kind = 0 /\ x \in {c, d})
                                   THEN [i \in 1..Hd.K |-> IF f[x][i] # None /\ m[x][i] # None THEN ad[x][i] ELSE 0] ELSE NoAddr(Hd.K)]
         /\ pin' = [x \in 1..NC |-> -1] /\ cp' = [x \in 1..NC |-> 0]
         /\ mx' = [x \in 1..NC |-> Max(mx[x], Max(n[x], ss[x]) + 64)]
    (* as many objects are alive as the containers and handles hold; in the end nothing is left *)
    [] e[1] = "acct" ->
         /\ e[2] = Hd.objs * (n[1] + n[2] + n[3] + Cardinality({s \in 1..NH : h[s][1] # None})) /\ Same
    [] e[1] = "fin" -> e[2] = 0 /\ e[3] = 0 /\ e[4] = 0 /\ Same
    [] e[1] = "lodx" -> e[3] = 0 /\ Same /\ SzOk(c, sz)
    [] OTHER -> FALSE
(* dump and load *)
ArchStep(e) ==
  LET c == e[2] IN
  CASE e[1] = "dmp" ->                       \* c f ok sz
         /\ e[4] = 1 /\ arch' = [arch EXCEPT ![e[3]] = <<m[c], mx[c]>>]
         /\ Same /\ SzOk(c, e[5])
    [] e[1] = "lod" ->                       \* c f ok whole sz
         LET a == arch[e[3]] IN
         /\ e[4] = 1 /\ e[5] = 1
         /\ Become(c, a[1], NoAddr(Hd.K))
         /\ mx' = [mx EXCEPT ![c] = Max(@, a[2])]
         /\ SzOk(c, e[6]) /\ UNCHANGED <<arch, h>>

TraceNext ==
    \/ /\ l <= Len(Hd.ev)
       /\ IF Hd.ev[l][1] \in {"dmp", "lod"} THEN ArchStep(Hd.ev[l]) ELSE Step(Hd.ev[l]) /\ UNCHANGED arch
       /\ l' = l + 1
       /\ UNCHANGED tid
    \/ /\ l > Len(Hd.ev)
       /\ UNCHANGED <<tvars, hvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, hvars>>

\* invariant of the abstract state, evaluated in every state of every trace
CountInv == \A c \in 1..NC : n[c] >= 0

\* what is shown of a behaviour when a trace is rejected
Brief == [tid |-> tid, l |-> l]
=============================================================================
