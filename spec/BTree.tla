------------------------------- MODULE BTree -------------------------------
(***************************************************************************)
(* Abstract specification of the gtl B-tree containers.                    *)
(*                                                                         *)
(* A container is the sequence of its entries <<key, id>> in iteration     *)
(* order.  The comparator is a rank on keys: "ord" 1 is ascending, -1      *)
(* descending and 2 coarse (keys 2i and 2i+1 are equivalent).  A map's id  *)
(* is its mapped value; a set's id distinguishes equivalent elements.      *)
(* Unique containers hold at most one entry of each rank; multi containers *)
(* keep the entries of one rank in the order un-hinted insertions added    *)
(* them.  Positions are 0-based, as an iterator's distance from begin().   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    s,   \* s[c] : the entries of container c, in order
    h    \* h[i] : node handle i, <<>> or one entry

bvars == <<s, h>>

BInit(C, H) == s = [c \in 1..C |-> <<>>] /\ h = [i \in 1..H |-> <<>>]

Rank(ord, k) == IF ord = 1 THEN k ELSE IF ord = -1 THEN -k ELSE k \div 2

\* number of entries of q ranking before (LB) / not after (UB) key k, by bisection
RECURSIVE LBr(_, _, _, _, _)
LBr(q, ord, r, lo, hi) ==
    IF lo >= hi THEN lo
    ELSE LET mid == (lo + hi) \div 2 IN
         IF Rank(ord, q[mid+1][1]) < r THEN LBr(q, ord, r, mid + 1, hi) ELSE LBr(q, ord, r, lo, mid)
LB(q, ord, k) == LBr(q, ord, Rank(ord, k), 0, Len(q))
UB(q, ord, k) == LBr(q, ord, Rank(ord, k) + 1, 0, Len(q))

Holds(q, ord, k) == LET p == LB(q, ord, k) IN p < Len(q) /\ Rank(ord, q[p+1][1]) = Rank(ord, k)

InsAt(q, p, e) == SubSeq(q, 1, p) \o <<e>> \o SubSeq(q, p + 1, Len(q))
DelRange(q, a, b) == SubSeq(q, 1, a) \o SubSeq(q, b + 1, Len(q))

\* one un-hinted insertion
Add(q, ord, multi, e) ==
    IF multi THEN InsAt(q, UB(q, ord, e[1]), e)
    ELSE IF Holds(q, ord, e[1]) THEN q ELSE InsAt(q, LB(q, ord, e[1]), e)

\* insertion of a list k1 v1 k2 v2 ... in order
RECURSIVE AddList(_, _, _, _, _)
AddList(q, ord, multi, l, i) ==
    IF i > Len(l) THEN q ELSE AddList(Add(q, ord, multi, <<l[i], l[i+1]>>), ord, multi, l, i + 2)

\* insertion of keys lo, lo+st, ... below hi, upwards or downwards, all with identity v
RECURSIVE AddRun(_, _, _, _, _, _, _, _)
AddRun(q, ord, multi, k, st, lo, hi, v) ==
    IF k < lo \/ k >= hi THEN q ELSE AddRun(Add(q, ord, multi, <<k, v>>), ord, multi, k + st, st, lo, hi, v)

\* the same for long runs without two keys of one rank: a merge by halves.  r lists the new entries by rank
RECURSIVE MergeIn(_, _, _)
MergeIn(q, ord, r) ==
    IF r = <<>> THEN q
    ELSE IF q = <<>> THEN r
    ELSE LET mid == (Len(r) + 1) \div 2
             p   == UB(q, ord, r[mid][1])
         IN MergeIn(SubSeq(q, 1, p), ord, SubSeq(r, 1, mid - 1)) \o <<r[mid]>>
            \o MergeIn(SubSeq(q, p + 1, Len(q)), ord, SubSeq(r, mid + 1, Len(r)))
RunSeq(ord, lo, hi, st, v) ==
    LET last == (hi - 1 - lo) \div st IN
    [i \in 1..(last + 1) |-> <<lo + st * (IF ord = -1 THEN last + 1 - i ELSE i - 1), v>>]
AddLong(q, ord, multi, st, lo, hi, v) ==
    LET r == RunSeq(ord, lo, hi, st, v) IN
    MergeIn(q, ord, IF multi THEN r ELSE SelectSeq(r, LAMBDA e : ~Holds(q, ord, e[1])))

InRun(k, lo, hi, st) == k >= lo /\ k < hi /\ (k - lo) % st = 0
DelRun(q, ord, k, st, hi) ==        \* all entries of the ranks of k, k+st, ... below hi are gone
    SelectSeq(q, LAMBDA e : ~(IF ord \in {1, -1} THEN InRun(e[1], k, hi, st)
                              ELSE InRun(2 * (e[1] \div 2), k, hi, st) \/ InRun(2 * (e[1] \div 2) + 1, k, hi, st)))

Sorted(q, ord, multi) ==
    \A i \in 1..(Len(q) - 1) :
        IF multi THEN Rank(ord, q[i][1]) <= Rank(ord, q[i+1][1]) ELSE Rank(ord, q[i][1]) < Rank(ord, q[i+1][1])

(***************************************************************************)
(* Actions.                                                                *)
(***************************************************************************)
Become(c, q)     == s' = [s EXCEPT ![c] = q] /\ UNCHANGED h
BSame            == UNCHANGED bvars
InsertPos(c, p, e)    == Become(c, InsAt(s[c], p, e))
EraseRange(c, a, b)   == Become(c, DelRange(s[c], a, b))
Copy(c, d)       == s' = [s EXCEPT ![c] = s[d]] /\ UNCHANGED h
Move(c, d)       == s' = [s EXCEPT ![c] = s[d], ![d] = <<>>] /\ UNCHANGED h    \* d cleared afterwards
Swap(c, d)       == s' = [s EXCEPT ![c] = s[d], ![d] = s[c]] /\ UNCHANGED h
Extract(c, p, i) == s' = [s EXCEPT ![c] = DelRange(@, p, p + 1)] /\ h' = [h EXCEPT ![i] = s[c][p+1]]

\* erase_if(k mod a = b)
Keep(c, a, b) == Become(c, SelectSeq(s[c], LAMBDA e : e[1] % a # b))

\* merge into a unique container: what moves and what stays
RECURSIVE MergeU(_, _, _, _)
MergeU(q, src, ord, i) == IF i > Len(src) THEN q ELSE MergeU(Add(q, ord, FALSE, src[i]), src, ord, i + 1)

\* a is a subsequence of b (greedy)
RECURSIVE SubSeqOf(_, _, _, _)
SubSeqOf(a, i, b, j) ==
    IF i > Len(a) THEN TRUE
    ELSE IF j > Len(b) THEN FALSE
    ELSE IF a[i] = b[j] THEN SubSeqOf(a, i + 1, b, j + 1) ELSE SubSeqOf(a, i, b, j + 1)
Bag(q)  == [e \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = e})]
BagOf2(q, r) == Bag(q \o r)

\* lexicographic comparison of entry sequences; entries compare by key, then id
Less(e, f) == e[1] < f[1] \/ (e[1] = f[1] /\ e[2] < f[2])
LexLess(a, b) ==
    LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        D == {i \in 1..m : a[i] # b[i]} IN
    IF D = {} THEN Len(a) < Len(b)
    ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN Less(a[i], b[i])
=============================================================================
