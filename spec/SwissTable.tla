----------------------------- MODULE SwissTable -----------------------------
(***************************************************************************)
(* Design model of raw_hash_set (phmap.hpp): an open-addressing table with *)
(* one control byte per slot, probed in unaligned groups of W bytes with   *)
(* triangular steps, tombstones, in-place removal of tombstones and        *)
(* growth by doubling.  It follows the structure of the code:              *)
(*   Find         find_impl / _find_key                                    *)
(*   FirstFree    find_first_non_full                                      *)
(*   Prepare      prepare_insert + rehash_and_grow_if_necessary            *)
(*   EraseMeta    erase_meta_only (was_never_full)                         *)
(*   DropDeletes  drop_deletes_without_resize                              *)
(*   Resize       resize                                                   *)
(* The history variable S is the abstract set (HashMap.tla); the invariants*)
(* say that the table implements it and that every probe ends.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS W,          \* group width
          Keys,       \* keys, 0..n-1
          HashIds,    \* which hash functions to explore
          MaxCap      \* bound on the capacity (state constraint)

VARIABLES ctrl, slot, cap, size, gl, hid, S
vars == <<ctrl, slot, cap, size, gl, hid, S>>

Empty == -1
Del   == -2
Sent  == -3
NoKey == -1

H1(k) == CASE hid = 0 -> k
           [] hid = 1 -> 0
           [] hid = 2 -> 2 * k
           [] hid = 3 -> 15 - (k % 3)
           [] hid = 4 -> (k * 5) % 16
           [] hid = 5 -> 4 * (k % 2)
           [] hid = 6 -> k \div 2
           [] OTHER -> 7
H2(k) == CASE hid \in {0, 2} -> k % 2
           [] hid = 3 -> k % 3
           [] OTHER -> 0

Max(a, b) == IF a >= b THEN a ELSE b
Small(c) == c < W - 1
\* CapacityToGrowth for group width W (7/8 in the code, at least one empty slot unless small)
Growth(c) == IF Small(c) THEN c ELSE c - Max(c \div 8, 1)
RECURSIVE Normalize(_, _)
Normalize(n, c) == IF c >= n THEN c ELSE Normalize(n, 2 * c + 1)
\* smallest valid capacity whose growth is at least n
RECURSIVE CapFor(_, _)
CapFor(n, c) == IF Growth(c) >= n THEN c ELSE CapFor(n, 2 * c + 1)

(***************************************************************************)
(* Control bytes: position p of the array with sentinel and cloned bytes.  *)
(***************************************************************************)
At(ct, c, p) == IF c = 0 THEN (IF p = 0 THEN Sent ELSE Empty)
                ELSE IF p < c THEN ct[p]
                ELSE IF p = c THEN Sent
                ELSE IF p - c - 1 < (IF Small(c) THEN c ELSE W - 1) THEN ct[p - c - 1]
                ELSE Empty
Mask(c, p) == IF c = 0 THEN 0 ELSE p % (c + 1)
Off(c, h, i) == Mask(c, h + W * ((i * (i + 1)) \div 2))      \* offset of the i-th probe
Probes(c) == 0..(c + 1)                                        \* far more than ever needed

GroupHasEmpty(ct, c, o) == \E j \in 0..(W-1) : At(ct, c, o + j) = Empty
\* slots of the group at offset o whose control byte is t
GroupMatch(ct, c, o, t) == {Mask(c, o + j) : j \in {x \in 0..(W-1) : At(ct, c, o + x) = t}}

\* number of the probe at which a search for hash h ends, -1 if never
EndProbe(ct, c, h) ==
    LET E == {i \in Probes(c) : GroupHasEmpty(ct, c, Off(c, h, i))} IN
    IF E = {} THEN -1 ELSE CHOOSE i \in E : \A j \in E : i <= j
Terminates(ct, c, h) == EndProbe(ct, c, h) # -1

\* result of find: slot index or -1
FindIn(ct, sl, c, k) ==
    LET last == EndProbe(ct, c, H1(k))
        hits == {x \in UNION {GroupMatch(ct, c, Off(c, H1(k), i), H2(k)) : i \in 0..last} : x < c /\ sl[x] = k}
    IN IF hits = {} THEN -1 ELSE CHOOSE x \in hits : TRUE

\* find_first_non_full: first empty or deleted slot along the probe sequence
FreeIn(ct, c, o) == {j \in 0..(W-1) : At(ct, c, o + j) \in {Empty, Del}}
RECURSIVE FirstFree(_, _, _, _)
FirstFree(ct, c, h, i) ==
    LET o == Off(c, h, i)
        F == FreeIn(ct, c, o)
    IN IF F # {} THEN Mask(c, o + (CHOOSE j \in F : \A q \in F : j <= q)) ELSE FirstFree(ct, c, h, i + 1)

(***************************************************************************)
(* resize: reinsert everything, in slot order, into a table of capacity c2 *)
(***************************************************************************)
RECURSIVE Reinsert(_, _, _, _, _, _)
Reinsert(ct, sl, c, old, oldslot, i) ==
    IF i >= Len(old) THEN <<ct, sl>>
    ELSE IF old[i+1] < 0 THEN Reinsert(ct, sl, c, old, oldslot, i + 1)
    ELSE LET k == oldslot[i+1]
             t == FirstFree(ct, c, H1(k), 0)
         IN Reinsert([ct EXCEPT ![t] = H2(k)], [sl EXCEPT ![t] = k], c, old, oldslot, i + 1)
AsSeq(f, c) == [i \in 1..c |-> f[i-1]]
Resized(c2) == Reinsert([i \in 0..(c2-1) |-> Empty], [i \in 0..(c2-1) |-> NoKey], c2, AsSeq(ctrl, cap), AsSeq(slot, cap), 0)

(***************************************************************************)
(* drop_deletes_without_resize                                             *)
(***************************************************************************)
RECURSIVE Drop(_, _, _)
Drop(ct, sl, i) ==
    IF i >= cap THEN <<ct, sl>>
    ELSE IF ct[i] # Del THEN Drop(ct, sl, i + 1)
    ELSE LET k == sl[i]
             ni == FirstFree(ct, cap, H1(k), 0)
             home == Mask(cap, H1(k))
             pi(p) == ((p - home + cap + 1) % (cap + 1)) \div W
         IN IF pi(ni) = pi(i) THEN Drop([ct EXCEPT ![i] = H2(k)], sl, i + 1)
            ELSE IF ct[ni] = Empty
                 THEN Drop([ct EXCEPT ![ni] = H2(k), ![i] = Empty], [sl EXCEPT ![ni] = k, ![i] = NoKey], i + 1)
                 ELSE Drop([ct EXCEPT ![ni] = H2(k)], [sl EXCEPT ![ni] = k, ![i] = sl[ni]], i)   \* swap, repeat
Dropped == Drop([i \in 0..(cap-1) |-> IF ctrl[i] >= 0 THEN Del ELSE Empty], slot, 0)

(***************************************************************************)
(* Actions                                                                 *)
(***************************************************************************)
Init == /\ hid \in HashIds
        /\ cap = 0 /\ size = 0 /\ gl = 0 /\ S = {}
        /\ ctrl = [i \in {} |-> Empty] /\ slot = [i \in {} |-> NoKey]

Has(k) == cap > 0 /\ FindIn(ctrl, slot, cap, k) # -1

\* put key k into table (ct, sl, c) with growth g
Place(k, ct, sl, c, g) ==
    LET t == FirstFree(ct, c, H1(k), 0) IN
    /\ ctrl' = [ct EXCEPT ![t] = H2(k)]
    /\ slot' = [sl EXCEPT ![t] = k]
    /\ cap' = c
    /\ size' = size + 1
    /\ gl' = g - (IF ct[t] = Empty THEN 1 ELSE 0)
    /\ S' = S \cup {k}
    /\ UNCHANGED hid

Insert(k) ==
    /\ ~Has(k)
    /\ IF cap = 0
       THEN LET r == Resized(1) IN Place(k, r[1], r[2], 1, Growth(1))
       ELSE LET t == FirstFree(ctrl, cap, H1(k), 0) IN
            IF gl = 0 /\ At(ctrl, cap, t) # Del
            THEN IF size <= Growth(cap) \div 2
                 THEN LET r == Dropped IN Place(k, r[1], r[2], cap, Growth(cap) - size)
                 ELSE LET r == Resized(2 * cap + 1) IN Place(k, r[1], r[2], 2 * cap + 1, Growth(2 * cap + 1) - size)
            ELSE Place(k, ctrl, slot, cap, gl)

Lead0(o) ==   \* how many bytes at the end of the group at o are not empty
    LET E == {j \in 0..(W-1) : At(ctrl, cap, o + j) = Empty} IN (W - 1) - (CHOOSE j \in E : \A q \in E : q <= j)
Trail0(o) ==  \* how many bytes at the start of the group at o are not empty
    LET E == {j \in 0..(W-1) : At(ctrl, cap, o + j) = Empty} IN CHOOSE j \in E : \A q \in E : j <= q
EraseMeta(i) ==
    LET before == (i - W + 2 * W * (cap + 1)) % (cap + 1)
        never == /\ GroupHasEmpty(ctrl, cap, before) /\ GroupHasEmpty(ctrl, cap, i)
                 /\ Trail0(i) + Lead0(before) < W
    IN /\ ctrl' = [ctrl EXCEPT ![i] = IF never THEN Empty ELSE Del]
       /\ gl' = gl + (IF never THEN 1 ELSE 0)
Erase(k) ==
    /\ Has(k)
    /\ LET i == FindIn(ctrl, slot, cap, k) IN
       /\ EraseMeta(i)
       /\ slot' = [slot EXCEPT ![i] = NoKey]
    /\ size' = size - 1
    /\ S' = S \ {k}
    /\ UNCHANGED <<cap, hid>>

ToCap(c) == LET r == Resized(c) IN
    /\ ctrl' = r[1] /\ slot' = r[2] /\ cap' = c /\ gl' = Growth(c) - size
    /\ UNCHANGED <<size, S, hid>>
Rehash0 == /\ cap > 0 /\ size > 0 /\ ToCap(CapFor(size, 1))
Reserve(n) == /\ n > size + gl /\ ToCap(Max(cap, CapFor(n, 1)))
Clear == /\ size > 0
         /\ ctrl' = [i \in DOMAIN ctrl |-> Empty] /\ slot' = [i \in DOMAIN slot |-> NoKey]
         /\ size' = 0 /\ gl' = Growth(cap) /\ S' = {} /\ UNCHANGED <<cap, hid>>
Release == /\ cap > 0 /\ size = 0                              \* rehash(0) of an empty table
           /\ ctrl' = [i \in {} |-> Empty] /\ slot' = [i \in {} |-> NoKey] /\ cap' = 0 /\ gl' = 0
           /\ UNCHANGED <<size, S, hid>>

Next == \/ \E k \in Keys : Insert(k) \/ Erase(k)
        \/ Rehash0 \/ Clear \/ Release
        \/ \E n \in 1..Cardinality(Keys) : Reserve(n)
Spec == Init /\ [][Next]_vars
Bound == cap <= MaxCap

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Full == {i \in 0..(cap-1) : ctrl[i] >= 0}
SizeOk == size = Cardinality(S) /\ Cardinality(Full) = size
Implements == \A k \in Keys : Has(k) <=> (k \in S)
Consistent == \A i \in Full : ctrl[i] = H2(slot[i]) /\ FindIn(ctrl, slot, cap, slot[i]) = i
LoadOk == cap > 0 => size <= Growth(cap)
GrowthLeft == cap > 0 => gl >= 0 /\ gl + size + Cardinality({i \in 0..(cap-1) : ctrl[i] = Del}) <= Growth(cap)
EveryProbeEnds == cap > 0 => \A o \in 0..cap : Terminates(ctrl, cap, o)
NoBlowUp == cap <= 2 * MaxCap + 1
=============================================================================
