------------------------------ MODULE BTreeNode ------------------------------
(* The node-level algorithm of the B-tree (btree.hpp: internal_emplace, rebalance_or_split, split, merge,
   rebalance_right_to_left, rebalance_left_to_right, erase, rebalance_after_delete, try_merge_or_rebalance, try_shrink,
   erase of a range, iterator increment and decrement) over a heap of nodes with parent and position fields, checked
   against the abstract sorted set: the elements of the tree are exactly the set, in order; every call returns the
   iterator it promises; all leaves are equally deep; no node but the root is empty or overfull; parent and position
   fields and the remembered rightmost leaf are right; no node is leaked.

   A node is [k, c, par, pos]; it is a leaf iff c is empty; count() is Len(k); children are numbered from 0 as in the
   code (child i is c[i+1]).  A tree is [h: id -> node, root, rm] with root = 0 for the empty tree.  An iterator is
   [n, p]; end() is [rm, count of rm]. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS N,         \* values per node (kNodeValues)
          K,         \* most elements in the tree
          M          \* node ids available
ASSUME N >= 3
MinN == N \div 2     \* kMinNodeValues
VARIABLES t, set, ok
vars == <<t, set, ok>>

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Bit(b) == IF b THEN 1 ELSE 0
Nil == [k |-> <<>>, c |-> <<>>, par |-> 0, pos |-> 0]
Free(x) == CHOOSE i \in 1..M : i \notin DOMAIN x.h
Leaf(x, n) == x.h[n].c = <<>>
Cnt(x, n) == Len(x.h[n].k)
Child(x, n, i) == x.h[n].c[i+1]
Upd(x, n, r) == [x EXCEPT !.h = [i \in DOMAIN x.h \cup {n} |-> IF i = n THEN r ELSE x.h[i]]]
Del(x, n) == [x EXCEPT !.h = [i \in DOMAIN x.h \ {n} |-> x.h[i]]]
\* gives node n the keys ks and the children cs, fixing parent and position of each child
Fill(x, n, ks, cs) ==
    LET y == Upd(x, n, [x.h[n] EXCEPT !.k = ks, !.c = cs])
    IN [y EXCEPT !.h = [i \in DOMAIN y.h |-> IF \E j \in 1..Len(cs) : cs[j] = i
                                               THEN [y.h[i] EXCEPT !.par = n, !.pos = (CHOOSE j \in 1..Len(cs) : cs[j] = i) - 1] ELSE y.h[i]]]
First(s, n) == SubSeq(s, 1, n)
Rest(s, n) == SubSeq(s, n + 1, Len(s))              \* all but the first n
Put(s, i, v) == [s EXCEPT ![i+1] = v]               \* 0-based
InsAt(s, i, v) == First(s, i) \o <<v>> \o Rest(s, i)
Cut(s, i, n) == First(s, i) \o Rest(s, i + n)       \* removes n from 0-based i

\* ------------------------------------------------------------ node operations
R2L(x, left, right, m) ==
    LET par == x.h[left].par
        i == x.h[left].pos
        lk == x.h[left].k
        rk == x.h[right].k
        a == Fill(x, par, Put(x.h[par].k, i, rk[m]), x.h[par].c)
        b == Fill(a, left, lk \o <<x.h[par].k[i+1]>> \o First(rk, m - 1), IF Leaf(x, left) THEN <<>> ELSE x.h[left].c \o First(x.h[right].c, m))
    IN Fill(b, right, Rest(rk, m), IF Leaf(x, left) THEN <<>> ELSE Rest(x.h[right].c, m))
L2R(x, left, right, m) ==
    LET par == x.h[left].par
        i == x.h[left].pos
        lk == x.h[left].k
        n == Len(lk)
        a == Fill(x, par, Put(x.h[par].k, i, lk[n - m + 1]), x.h[par].c)
        b == Fill(a, right, Rest(lk, n - m + 1) \o <<x.h[par].k[i+1]>> \o x.h[right].k,
                  IF Leaf(x, left) THEN <<>> ELSE Rest(x.h[left].c, n - m + 1) \o x.h[right].c)
    IN Fill(b, left, First(lk, n - m), IF Leaf(x, left) THEN <<>> ELSE First(x.h[left].c, n - m + 1))
\* splits n at insert position ip into n and dest (a new node); the parent has room
Split(x, n, ip, dest) ==
    LET ks == x.h[n].k
        dc == IF ip = 0 THEN Len(ks) - 1 ELSE IF ip = N THEN 0 ELSE Len(ks) \div 2
        lc == Len(ks) - dc - 1                        \* keys left in n
        par == x.h[n].par
        i == x.h[n].pos
        y0 == Upd(x, dest, Nil)
        y1 == Fill(y0, dest, Rest(ks, lc + 1), IF Leaf(x, n) THEN <<>> ELSE Rest(x.h[n].c, lc + 1))
        y2 == Fill(y1, n, First(ks, lc), IF Leaf(x, n) THEN <<>> ELSE First(x.h[n].c, lc + 1))
    IN Fill(y2, par, InsAt(x.h[par].k, i, ks[lc + 1]), InsAt(x.h[par].c, i + 1, dest))
Merge(x, left, right) ==
    LET par == x.h[left].par
        i == x.h[left].pos
        y == Fill(x, left, x.h[left].k \o <<x.h[par].k[i+1]>> \o x.h[right].k, x.h[left].c \o x.h[right].c)
        z == Fill(y, par, Cut(y.h[par].k, i, 1), Cut(y.h[par].c, i + 1, 1))
    IN Del([z EXCEPT !.rm = IF @ = right THEN left ELSE @], right)

\* ------------------------------------------------------------ iterators
End(x) == [n |-> x.rm, p |-> IF x.rm = 0 THEN 0 ELSE Cnt(x, x.rm)]
RECURSIVE Down(_, _), DownR(_, _), Up(_, _), UpL(_, _)
Down(x, n) == IF Leaf(x, n) THEN n ELSE Down(x, Child(x, n, 0))
DownR(x, n) == IF Leaf(x, n) THEN n ELSE DownR(x, Child(x, n, Cnt(x, n)))
Up(x, it) == IF it.p = Cnt(x, it.n) /\ it.n # x.root THEN Up(x, [n |-> x.h[it.n].par, p |-> x.h[it.n].pos]) ELSE it
UpL(x, it) == IF it.p < 0 /\ it.n # x.root THEN UpL(x, [n |-> x.h[it.n].par, p |-> x.h[it.n].pos - 1]) ELSE it
Inc(x, it) ==
    IF Leaf(x, it.n)
    THEN LET j == [it EXCEPT !.p = @ + 1] IN
         IF j.p < Cnt(x, j.n) THEN j ELSE LET u == Up(x, j) IN IF u.p = Cnt(x, u.n) THEN j ELSE u
    ELSE [n |-> Down(x, Child(x, it.n, it.p + 1)), p |-> 0]
Dec(x, it) ==
    IF Leaf(x, it.n)
    THEN LET j == [it EXCEPT !.p = @ - 1] IN
         IF j.p >= 0 THEN j ELSE LET u == UpL(x, j) IN IF u.p < 0 THEN j ELSE u
    ELSE LET d == DownR(x, Child(x, it.n, it.p)) IN [n |-> d, p |-> Cnt(x, d) - 1]
Key(x, it) == x.h[it.n].k[it.p + 1]
Begin(x) == IF x.root = 0 THEN [n |-> 0, p |-> 0] ELSE [n |-> Down(x, x.root), p |-> 0]
RECURSIVE PastEnd(_, _)
\* internal_last: from the end of a node to the element after it; n = 0 when there is none
PastEnd(x, it) == IF it.p < Cnt(x, it.n) THEN it
               ELSE IF it.n = x.root THEN [n |-> 0, p |-> 0]
               ELSE PastEnd(x, [n |-> x.h[it.n].par, p |-> x.h[it.n].pos])
LB(x, n, key) == Cardinality({j \in 1..Cnt(x, n) : x.h[n].k[j] < key})
RECURSIVE Locate(_, _, _)
Locate(x, n, key) == LET p == LB(x, n, key) IN IF Leaf(x, n) THEN [n |-> n, p |-> p] ELSE Locate(x, Child(x, n, p), key)

\* ------------------------------------------------------------ insertion
RECURSIVE RebalanceOrSplit(_, _)
\* makes room at the full node it.n for an insertion at it.p; returns the tree and the place
RebalanceOrSplit(x, it) ==
    LET n == it.n
        ip == it.p
        par == x.h[n].par
        i == x.h[n].pos
        isroot == n = x.root
        hasL == ~isroot /\ i > 0
        hasR == ~isroot /\ i < Cnt(x, par)
        left == IF hasL THEN Child(x, par, i - 1) ELSE 0
        right == IF hasR THEN Child(x, par, i + 1) ELSE 0
        mL == IF hasL THEN Max2(1, (N - Cnt(x, left)) \div (1 + Bit(ip < N))) ELSE 0
        mR == IF hasR THEN Max2(1, (N - Cnt(x, right)) \div (1 + Bit(ip > 0))) ELSE 0
        useL == hasL /\ Cnt(x, left) < N /\ (ip - mL >= 0 \/ Cnt(x, left) + mL < N)
        useR == hasR /\ Cnt(x, right) < N /\ (ip <= N - mR \/ Cnt(x, right) + mR < N)
    IN
    IF useL THEN LET y == R2L(x, left, n, mL) IN
        [t |-> y, it |-> IF ip - mL < 0 THEN [n |-> left, p |-> ip - mL + Cnt(y, left) + 1] ELSE [n |-> n, p |-> ip - mL]]
    ELSE IF useR THEN LET y == L2R(x, n, right, mR) IN
        [t |-> y, it |-> IF ip > Cnt(y, n) THEN [n |-> right, p |-> ip - Cnt(y, n) - 1] ELSE it]
    ELSE
        LET y == IF isroot
                 THEN LET r == Free(x) IN [Fill(Upd(x, r, Nil), r, <<>>, <<n>>) EXCEPT !.root = r]
                 ELSE IF Cnt(x, par) = N THEN RebalanceOrSplit(x, [n |-> par, p |-> i]).t ELSE x
            d == Free(y)
            z0 == Split(y, n, ip, d)
            z == [z0 EXCEPT !.rm = IF @ = n THEN d ELSE @]
        IN [t |-> z, it |-> IF ip > Cnt(z, n) THEN [n |-> d, p |-> ip - Cnt(z, n) - 1] ELSE it]

\* internal_emplace: inserts key before iterator it; returns the tree and the iterator of the new element
Emplace(x, it0, key) ==
    LET it == IF Leaf(x, it0.n) THEN it0 ELSE LET d == Dec(x, it0) IN [d EXCEPT !.p = @ + 1]
        r == IF Cnt(x, it.n) = N THEN RebalanceOrSplit(x, it) ELSE [t |-> x, it |-> it]
    IN [t |-> Fill(r.t, r.it.n, InsAt(r.t.h[r.it.n].k, r.it.p, key), r.t.h[r.it.n].c), it |-> r.it]

\* ------------------------------------------------------------ erasure
\* one merge or rebalancing step at iterator it; returns tree, iterator and whether nodes were merged
TryMerge(x, it) ==
    LET n == it.n
        par == x.h[n].par
        i == x.h[n].pos
        left == IF i > 0 THEN Child(x, par, i - 1) ELSE 0
        right == IF i < Cnt(x, par) THEN Child(x, par, i + 1) ELSE 0
    IN
    IF left # 0 /\ 1 + Cnt(x, left) + Cnt(x, n) <= N
        THEN [t |-> Merge(x, left, n), it |-> [n |-> left, p |-> it.p + 1 + Cnt(x, left)], merged |-> TRUE]
    ELSE IF right # 0 /\ 1 + Cnt(x, n) + Cnt(x, right) <= N
        THEN [t |-> Merge(x, n, right), it |-> it, merged |-> TRUE]
    ELSE IF right # 0 /\ Cnt(x, right) > MinN /\ (Cnt(x, n) = 0 \/ it.p > 0)
        THEN LET m == Min2((Cnt(x, right) - Cnt(x, n)) \div 2, Cnt(x, right) - 1) IN [t |-> R2L(x, n, right, m), it |-> it, merged |-> FALSE]
    ELSE IF left # 0 /\ Cnt(x, left) > MinN /\ (Cnt(x, n) = 0 \/ it.p < Cnt(x, n))
        THEN LET m == Min2((Cnt(x, left) - Cnt(x, n)) \div 2, Cnt(x, left) - 1) IN
             [t |-> L2R(x, left, n, m), it |-> [it EXCEPT !.p = @ + m], merged |-> FALSE]
    ELSE [t |-> x, it |-> it, merged |-> FALSE]

Shrink(x) ==
    IF Cnt(x, x.root) > 0 THEN x
    ELSE IF Leaf(x, x.root) THEN [Del(x, x.root) EXCEPT !.root = 0, !.rm = 0]
    ELSE LET c == Child(x, x.root, 0) IN [Del(Upd(x, c, [x.h[c] EXCEPT !.par = 0, !.pos = 0]), x.root) EXCEPT !.root = c]

RECURSIVE Walk(_, _, _, _)
Walk(x, it, res, first) ==
    IF it.n = x.root THEN [t |-> Shrink(x), it |-> res]
    ELSE IF Cnt(x, it.n) >= MinN THEN [t |-> x, it |-> res]
    ELSE LET r == TryMerge(x, it)
             res2 == IF first THEN r.it ELSE res
         IN IF ~r.merged THEN [t |-> r.t, it |-> res2]
            ELSE Walk(r.t, [n |-> r.t.h[r.it.n].par, p |-> r.t.h[r.it.n].pos], res2, FALSE)
RebalanceAfterDelete(x, it) ==
    LET r == Walk(x, it, it, TRUE) IN
    IF r.t.root = 0 THEN [t |-> r.t, it |-> End(r.t)]
    ELSE IF r.it.p = Cnt(r.t, r.it.n) THEN [t |-> r.t, it |-> Inc(r.t, [r.it EXCEPT !.p = @ - 1])]
    ELSE r
EraseOne(x, it0) ==
    LET inner == ~Leaf(x, it0.n)
        it == IF inner THEN Dec(x, it0) ELSE it0
        y0 == IF inner THEN Fill(x, it0.n, Put(x.h[it0.n].k, it0.p, Key(x, it)), x.h[it0.n].c) ELSE x
        y == Fill(y0, it.n, Cut(y0.h[it.n].k, it.p, 1), y0.h[it.n].c)
        r == RebalanceAfterDelete(y, it)
    IN IF inner THEN [r EXCEPT !.it = Inc(r.t, @)] ELSE r

RECURSIVE Below(_, _), EraseLoop(_, _, _)
Below(x, n) == {n} \cup UNION {Below(x, x.h[n].c[j]) : j \in 1..Len(x.h[n].c)}
\* erases `left` more elements from it on
EraseLoop(x, it, left) ==
    IF left = 0 THEN [t |-> x, it |-> it]
    ELSE IF Leaf(x, it.n)
         THEN LET m == Min2(left, Cnt(x, it.n) - it.p)
                  r == RebalanceAfterDelete(Fill(x, it.n, Cut(x.h[it.n].k, it.p, m), <<>>), it)
              IN EraseLoop(r.t, r.it, left - m)
         ELSE LET r == EraseOne(x, it) IN EraseLoop(r.t, r.it, left - 1)
EraseRange(x, b, e, count, size) ==
    IF count = 0 THEN [t |-> x, it |-> b]
    ELSE IF count = size THEN LET y == [h |-> <<>>, root |-> 0, rm |-> 0] IN [t |-> y, it |-> End(y)]
    ELSE IF b.n = e.n
         THEN LET m == e.p - b.p
                  gone == IF Leaf(x, b.n) THEN {} ELSE UNION {Below(x, Child(x, b.n, b.p + i)) : i \in 1..m}
                  y0 == [x EXCEPT !.h = [i \in DOMAIN x.h \ gone |-> x.h[i]]]
                  y == Fill(y0, b.n, Cut(x.h[b.n].k, b.p, m), IF Leaf(x, b.n) THEN <<>> ELSE Cut(x.h[b.n].c, b.p + 1, m))
              IN RebalanceAfterDelete(y, b)
    ELSE EraseLoop(x, b, count)

\* ------------------------------------------------------------ the system
RECURSIVE InOrder(_, _)
InOrder(x, n) == IF Leaf(x, n) THEN x.h[n].k
                 ELSE FlattenSeq([j \in 1..Cnt(x, n) |-> InOrder(x, x.h[n].c[j]) \o <<x.h[n].k[j]>>]) \o InOrder(x, x.h[n].c[Cnt(x, n) + 1])
Empty == [h |-> <<>>, root |-> 0, rm |-> 0]
Init == t = Empty /\ set = {} /\ ok = TRUE
RECURSIVE Nth(_, _, _)
Nth(x, it, n) == IF n = 0 THEN it ELSE Nth(x, Inc(x, it), n - 1)
\* the iterator of the n-th smallest element (from 0), or end()
At(n) == IF n = Cardinality(set) THEN End(t) ELSE Nth(t, Begin(t), n)
Rank(k) == Cardinality({x \in set : x < k})
\* iterator r of tree x points at key k, or is end() when k = 0
Points(x, r, k) == IF k = 0 THEN r = End(x) ELSE x.root # 0 /\ r.p < Cnt(x, r.n) /\ Key(x, r) = k
NextKey(s, k) == IF \E x \in s : x > k THEN CHOOSE x \in s : x > k /\ \A y \in s : y > k => y >= x ELSE 0

\* Only the order of the elements matters, so after each step the n elements are renamed 2, 4, .. 2n; an insertion
\* adds an odd key.  The states are then the shapes of trees with at most K elements.
Rename(x, s) == [x EXCEPT !.h = [n \in DOMAIN x.h |-> [x.h[n] EXCEPT !.k = [j \in 1..Len(x.h[n].k) |->
                    2 * Cardinality({y \in s : y <= x.h[n].k[j]})]]]]
Set(n) == {2 * i : i \in 1..n}
\* the step to tree r.t with element set s, returning r.it, which has to point at nxt
Step(r, s, nxt) ==
    /\ ok' = (Points(r.t, r.it, nxt) /\ (IF r.t.root = 0 THEN s = {} ELSE InOrder(r.t, r.t.root) = SetToSortSeq(s, <)))
    /\ t' = Rename(r.t, s)
    /\ set' = Set(Cardinality(s))

Insert(key) ==
    /\ Cardinality(set) < K
    /\ LET x == IF t.root = 0 THEN [h |-> 1 :> Nil, root |-> 1, rm |-> 1] ELSE t
       IN Step(Emplace(x, Locate(x, x.root, key), key), set \cup {key}, key)
\* with a correct hint the element is placed before the iterator of its successor, on whatever level that is
InsertHint(key) ==
    /\ set # {} /\ Cardinality(set) < K
    /\ Step(Emplace(t, At(Rank(key)), key), set \cup {key}, key)
Lookup(key) ==                                          \* find and lower_bound
    /\ set # {}
    /\ LET it == PastEnd(t, Locate(t, t.root, key)) IN ok' = (IF it.n = 0 THEN \A y \in set : y < key ELSE Key(t, it) = NextKey(set, key - 1))
    /\ UNCHANGED <<t, set>>
Erase(key) == Step(EraseOne(t, At(Rank(key))), set \ {key}, NextKey(set, key))
EraseMany(a, n) ==                                      \* n elements from the a-th on
    /\ a + n <= Cardinality(set)
    /\ Step(EraseRange(t, At(a), At(a + n), n, Cardinality(set)), {x \in set : Rank(x) < a \/ Rank(x) >= a + n},
            IF a + n = Cardinality(set) THEN 0 ELSE 2 * (a + n + 1))
Next == \/ \E i \in 0..Cardinality(set) : Insert(2 * i + 1) \/ InsertHint(2 * i + 1) \/ Lookup(2 * i + 1)
        \/ \E k \in set : Erase(k) \/ Lookup(k)
        \/ \E a \in 0..Cardinality(set), n \in 2..Cardinality(set) : EraseMany(a, n)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what must hold
RECURSIVE Depth(_, _)
Depth(x, n) == IF Leaf(x, n) THEN {1} ELSE {d + 1 : d \in UNION {Depth(x, x.h[n].c[j]) : j \in 1..Len(x.h[n].c)}}
Results == ok
Contents == IF t.root = 0 THEN set = {} ELSE InOrder(t, t.root) = SetToSortSeq(set, <)
Balanced == t.root # 0 => Cardinality(Depth(t, t.root)) = 1
Sizes == \A n \in DOMAIN t.h : Cnt(t, n) \in 1..N /\ (~Leaf(t, n) => Len(t.h[n].c) = Cnt(t, n) + 1)
Links == \A n \in DOMAIN t.h : /\ \A j \in 1..Len(t.h[n].c) : t.h[t.h[n].c[j]].par = n /\ t.h[t.h[n].c[j]].pos = j - 1
                               /\ (n = t.root => t.h[n].par = 0)
NoLeak == DOMAIN t.h = IF t.root = 0 THEN {} ELSE Below(t, t.root)
Rightmost == t.root # 0 => t.rm = DownR(t, t.root)
\* walking forward from begin() and backward from end() visits the same elements
Walkable == t.root # 0 => /\ Nth(t, Begin(t), Cardinality(set)) = End(t)
                          /\ Key(t, Dec(t, End(t))) = CHOOSE x \in set : \A y \in set : y <= x

RECURSIVE Canon(_)
Canon(n) == <<t.h[n].k, [j \in 1..Len(t.h[n].c) |-> Canon(t.h[n].c[j])]>>
View == IF t.root = 0 THEN <<ok>> ELSE <<ok, Canon(t.root)>>
=============================================================================
