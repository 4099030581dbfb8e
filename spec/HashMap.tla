------------------------------ MODULE HashMap ------------------------------
(***************************************************************************)
(* Abstract specification of the gtl hash containers (plain and parallel,  *)
(* flat and node, maps and sets).                                          *)
(*                                                                         *)
(* The state is what a user can observe: a family of containers, each a    *)
(* partial function from keys to values, two node handles, the identity of *)
(* the memory each entry lives in, and the size promised by reserve().     *)
(* Every public call is one action; its results are operators of the       *)
(* state, so an action also states what the call must report.              *)
(*                                                                         *)
(* Keys are 0..K-1; a container is a tuple indexed by key+1 with None for  *)
(* an absent key.  A set is a map whose values are all 0.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == -1

VARIABLES
    m,    \* m[c]   : contents of container c
    n,    \* n[c]   : number of entries of container c
    h,    \* h[s]   : node handle s, <<key, value, address>>
    ad,   \* ad[c]  : address identity of every entry (0 = not known / may change)
    pin,  \* pin[c] : -1, or the size up to which reserve() promised stable addresses
    cp,   \* cp[c]  : capacity last reported while pinned (0 = unknown)
    mx    \* mx[c]  : largest size or request container c has had so far

hvars == <<m, n, h, ad, pin, cp, mx>>

Empty(K)   == [i \in 1..K |-> None]
NoAddr(K)  == [i \in 1..K |-> 0]
NoNode     == <<None, None, 0>>

HInit(K, C, H) ==
    /\ m = [c \in 1..C |-> Empty(K)]
    /\ n = [c \in 1..C |-> 0]
    /\ h = [s \in 1..H |-> NoNode]
    /\ ad = [c \in 1..C |-> NoAddr(K)]
    /\ pin = [c \in 1..C |-> -1]
    /\ cp = [c \in 1..C |-> 0]
    /\ mx = [c \in 1..C |-> 0]

Has(c, k) == k >= 0 /\ k < Len(m[c]) /\ m[c][k+1] # None
Val(c, k) == m[c][k+1]
KeysOf(c) == {k \in 0..(Len(m[c])-1) : Has(c, k)}
Max(a, b) == IF a >= b THEN a ELSE b

(***************************************************************************)
(* Address bookkeeping.  Entries of node containers never change address;  *)
(* entries of flat containers keep it only while pinned by reserve().      *)
(***************************************************************************)
Unpin(c, node) ==   \* anything that may move flat entries
    /\ pin' = [pin EXCEPT ![c] = -1]
    /\ cp'  = [cp EXCEPT ![c] = 0]

\* one entry more in container c: still within the reservation?
Grew(c, node, size) ==
    IF pin[c] >= size
    THEN UNCHANGED <<pin, cp, ad>>
    ELSE /\ Unpin(c, node)
         /\ ad' = IF node \/ pin[c] = -1 THEN ad ELSE [ad EXCEPT ![c] = NoAddr(Len(m[c]))]

(***************************************************************************)
(* Actions on single keys.                                                 *)
(***************************************************************************)
Put(c, k, v, node) ==       \* new entry (k absent)
    /\ ~Has(c, k)
    /\ m' = [m EXCEPT ![c][k+1] = v]
    /\ n' = [n EXCEPT ![c] = @ + 1]
    /\ mx' = [mx EXCEPT ![c] = Max(@, n[c] + 1)]
    /\ Grew(c, node, n[c] + 1)
    /\ UNCHANGED h

Set(c, k, v) ==             \* new value of an entry (k present)
    /\ Has(c, k)
    /\ m' = [m EXCEPT ![c][k+1] = v]
    /\ UNCHANGED <<n, h, ad, pin, cp, mx>>

Same == UNCHANGED hvars

Insert(c, k, v, node) == IF Has(c, k) THEN Same ELSE Put(c, k, v, node)
Assign(c, k, v, node) == IF Has(c, k) THEN Set(c, k, v) ELSE Put(c, k, v, node)

\* the contents after inserting a list <<k1,v1,k2,v2,...>> in order (first wins)
RECURSIVE InsAll(_, _, _)
InsAll(f, q, i) ==
    IF i > Len(q) THEN f
    ELSE InsAll(IF f[q[i]+1] = None THEN [f EXCEPT ![q[i]+1] = q[i+1]] ELSE f, q, i + 2)

Count(f) == Cardinality({i \in DOMAIN f : f[i] # None})

\* contents of c replaced by f, nothing known about addresses (flat) / kept where kept (node)
Become(c, now, adr) ==
    \E f \in {now} :
    /\ m' = [m EXCEPT ![c] = f]
    /\ n' = [n EXCEPT ![c] = Count(f)]
    /\ ad' = [ad EXCEPT ![c] = adr]
    /\ pin' = [pin EXCEPT ![c] = -1]
    /\ cp' = [cp EXCEPT ![c] = 0]

InsertList(c, q, node) ==
    \E f \in {InsAll(m[c], q, 1)} :
    /\ Become(c, f, IF node THEN ad[c] ELSE NoAddr(Len(f)))
    /\ mx' = [mx EXCEPT ![c] = Max(@, n[c] + Len(q))]
    /\ UNCHANGED h

\* remove a set of keys
Remove(c, Gone, node) ==
    \E S \in {Gone} : \E f \in {[i \in DOMAIN m[c] |-> IF (i - 1) \in S THEN None ELSE m[c][i]]} :
    /\ \A k \in S : Has(c, k)
    /\ m' = [m EXCEPT ![c] = f]
    /\ n' = [n EXCEPT ![c] = @ - Cardinality(S)]
    /\ ad' = [ad EXCEPT ![c] = IF node THEN [i \in DOMAIN f |-> IF f[i] = None THEN 0 ELSE ad[c][i]]
                               ELSE NoAddr(Len(f))]
    /\ pin' = [pin EXCEPT ![c] = -1]
    /\ cp' = [cp EXCEPT ![c] = 0]
    /\ UNCHANGED <<h, mx>>
EraseKey(c, k, node) ==
    IF Has(c, k)
    THEN /\ m' = [m EXCEPT ![c][k+1] = None]
         /\ n' = [n EXCEPT ![c] = @ - 1]
         /\ ad' = IF node THEN [ad EXCEPT ![c][k+1] = 0]
                  ELSE IF pin[c] = -1 THEN ad
                  ELSE [ad EXCEPT ![c] = NoAddr(Len(m[c]))]
         /\ Unpin(c, node)
         /\ UNCHANGED <<h, mx>>
    ELSE Same
Clear(c) ==
    /\ Become(c, Empty(Len(m[c])), NoAddr(Len(m[c])))
    /\ UNCHANGED <<h, mx>>

(***************************************************************************)
(* Whole containers.                                                       *)
(***************************************************************************)
Build(c, q) ==              \* (re)construct c from the list q
    \E f \in {InsAll(Empty(Len(m[c])), q, 1)} :
    /\ Become(c, f, NoAddr(Len(f)))
    /\ mx' = [mx EXCEPT ![c] = Max(@, Max(60, Len(q)))]
    /\ UNCHANGED h
Copy(c, d) ==               \* also onto itself; entries may be copied anew
    /\ Become(c, m[d], NoAddr(Len(m[d])))
    /\ mx' = [mx EXCEPT ![c] = Max(@, Max(60, mx[d]))]
    /\ UNCHANGED h
\* d's entries move to c, d is reset; addresses survive in node containers when memory is taken over
Move(c, d, keep, node) ==
    /\ c # d
    /\ m' = [m EXCEPT ![c] = m[d], ![d] = Empty(Len(m[d]))]
    /\ n' = [n EXCEPT ![c] = n[d], ![d] = 0]
    /\ ad' = [ad EXCEPT ![c] = IF node /\ keep THEN ad[d] ELSE NoAddr(Len(m[d])), ![d] = NoAddr(Len(m[d]))]
    /\ pin' = [pin EXCEPT ![c] = -1, ![d] = -1]
    /\ cp' = [cp EXCEPT ![c] = 0, ![d] = 0]
    /\ mx' = [mx EXCEPT ![c] = Max(@, mx[d])]
    /\ UNCHANGED h
Swap(c, d, node) ==
    IF c = d THEN Same
    ELSE /\ m' = [m EXCEPT ![c] = m[d], ![d] = m[c]]
         /\ n' = [n EXCEPT ![c] = n[d], ![d] = n[c]]
         /\ ad' = [ad EXCEPT ![c] = IF node THEN ad[d] ELSE NoAddr(Len(m[d])),
                             ![d] = IF node THEN ad[c] ELSE NoAddr(Len(m[d]))]
         /\ pin' = [pin EXCEPT ![c] = -1, ![d] = -1]
         /\ cp' = [cp EXCEPT ![c] = 0, ![d] = 0]
         /\ mx' = [mx EXCEPT ![c] = Max(mx[c], mx[d]), ![d] = Max(mx[c], mx[d])]
         /\ UNCHANGED h
Equal(c, d) == m[c] = m[d]
Merge(c, d, node) ==        \* entries of d whose key c lacks move to c
    \E mv \in {{i \in DOMAIN m[d] : m[d][i] # None /\ m[c][i] = None}} :
    /\ c # d
    /\ m' = [m EXCEPT ![c] = [i \in DOMAIN m[c] |-> IF i \in mv THEN m[d][i] ELSE m[c][i]],
                      ![d] = [i \in DOMAIN m[d] |-> IF i \in mv THEN None ELSE m[d][i]]]
    /\ n' = [n EXCEPT ![c] = @ + Cardinality(mv), ![d] = @ - Cardinality(mv)]
    /\ ad' = IF node
             THEN [ad EXCEPT ![c] = [i \in DOMAIN m[c] |-> IF i \in mv THEN ad[d][i] ELSE ad[c][i]],
                             ![d] = [i \in DOMAIN m[d] |-> IF i \in mv THEN 0 ELSE ad[d][i]]]
             ELSE [ad EXCEPT ![c] = NoAddr(Len(m[d])), ![d] = NoAddr(Len(m[d]))]
    /\ pin' = [pin EXCEPT ![c] = -1, ![d] = -1]
    /\ cp' = [cp EXCEPT ![c] = 0, ![d] = 0]
    /\ mx' = [mx EXCEPT ![c] = Max(@, n[c] + Cardinality(mv))]
    /\ UNCHANGED h

(***************************************************************************)
(* Node handles.                                                           *)
(***************************************************************************)
Extract(c, k, s, node) ==
    IF Has(c, k)
    THEN /\ h' = [h EXCEPT ![s] = <<k, Val(c, k), IF node THEN ad[c][k+1] ELSE 0>>]
         /\ m' = [m EXCEPT ![c][k+1] = None]
         /\ n' = [n EXCEPT ![c] = @ - 1]
         /\ ad' = IF node THEN [ad EXCEPT ![c][k+1] = 0] ELSE [ad EXCEPT ![c] = NoAddr(Len(m[c]))]
         /\ pin' = [pin EXCEPT ![c] = -1]
         /\ cp' = [cp EXCEPT ![c] = 0]
         /\ UNCHANGED mx
    ELSE /\ h' = [h EXCEPT ![s] = NoNode]
         /\ UNCHANGED <<m, n, ad, pin, cp, mx>>
InsertNode(c, s, node) ==
    LET k == h[s][1] IN
    IF k = None \/ Has(c, k) THEN Same
    ELSE /\ m' = [m EXCEPT ![c][k+1] = h[s][2]]
         /\ n' = [n EXCEPT ![c] = @ + 1]
         /\ mx' = [mx EXCEPT ![c] = Max(@, n[c] + 1)]
         /\ ad' = IF node THEN [ad EXCEPT ![c][k+1] = h[s][3]] ELSE [ad EXCEPT ![c] = NoAddr(Len(m[c]))]
         /\ pin' = [pin EXCEPT ![c] = -1]
         /\ cp' = [cp EXCEPT ![c] = 0]
         /\ h' = [h EXCEPT ![s] = NoNode]
MoveNode(s, t) == /\ h' = [h EXCEPT ![t] = h[s], ![s] = NoNode] /\ UNCHANGED <<m, n, ad, pin, cp, mx>>
SwapNode(s, t) == /\ h' = [h EXCEPT ![t] = h[s], ![s] = h[t]] /\ UNCHANGED <<m, n, ad, pin, cp, mx>>

(***************************************************************************)
(* Capacity.                                                               *)
(***************************************************************************)
Reserve(c, k, cap, par, node) ==
    /\ m' = m /\ n' = n /\ h' = h
    /\ mx' = [mx EXCEPT ![c] = Max(@, k)]
    /\ pin' = [pin EXCEPT ![c] = IF par THEN -1 ELSE Max(k, n[c])]
    /\ cp' = [cp EXCEPT ![c] = IF par THEN 0 ELSE cap]
    /\ ad' = IF node THEN ad ELSE [ad EXCEPT ![c] = NoAddr(Len(m[c]))]
Rehash(c, k, node) ==
    /\ m' = m /\ n' = n /\ h' = h
    /\ mx' = [mx EXCEPT ![c] = Max(@, k)]
    /\ pin' = [pin EXCEPT ![c] = -1]
    /\ cp' = [cp EXCEPT ![c] = 0]
    /\ ad' = IF node THEN ad ELSE [ad EXCEPT ![c] = NoAddr(Len(m[c]))]
LoadOk(size, cap)  == size <= cap - (cap \div 8)
BoundOk(c, cap)    == cap <= 8 * mx[c] + 15

(***************************************************************************)
(* Observations of the whole container: q = <<k1,v1,k2,v2,...>>            *)
(***************************************************************************)
KeySet(q)  == {q[2*i-1] : i \in 1..(Len(q) \div 2)}
ListsAll(c, q) ==           \* q lists every entry of c exactly once
    /\ Len(q) = 2 * n[c]
    /\ Cardinality(KeySet(q)) = n[c]
    /\ \A i \in 1..n[c] : q[2*i-1] \in 0..(Len(m[c])-1) /\ m[c][q[2*i-1]+1] = q[2*i]
IsKeys(c, q) ==             \* q lists every key of c exactly once
    /\ Len(q) = n[c]
    /\ {q[i] : i \in 1..Len(q)} = KeysOf(c)
IsSuffixOf(q, p) == Len(q) <= Len(p) /\ q = SubSeq(p, Len(p) - Len(q) + 1, Len(p))

\* addresses reported for all entries: q[k+1] is the identity of k's memory, 0 if k is absent
SeeAddr(c, q, node) ==
    /\ Len(q) = Len(m[c])
    /\ \A i \in 1..Len(q) : IF m[c][i] = None THEN q[i] = 0 ELSE q[i] # 0 /\ ad[c][i] \in {0, q[i]}
    /\ ad' = IF node \/ pin[c] >= 0 THEN [ad EXCEPT ![c] = q] ELSE ad
    /\ UNCHANGED <<m, n, h, pin, cp, mx>>
=============================================================================
