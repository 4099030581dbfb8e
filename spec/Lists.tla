-------------------------------- MODULE Lists --------------------------------
(* The list helpers (vec_utils.hpp): a few list variables and the functions which build new lists from them.
   The helpers never change their arguments.

   slice(v, first, last, stride): indices count from the front when >= 0, and from the end when negative, -1 being
   the position after the last element; the elements at first, first + stride, ... before last, in that order. *)
EXTENDS Integers, Sequences, SequencesExt
VARIABLES lists
lvars == <<lists>>

Pos(n, i) == IF i >= 0 THEN i ELSE n + i + 1
Slice(s, first, last, stride) ==
    LET f == Pos(Len(s), first)
        t == Pos(Len(s), last)
        k == IF t > f THEN (t - f + stride - 1) \div stride ELSE 0
    IN  [j \in 1..k |-> s[f + (j - 1) * stride + 1]]
InDomain(s, first, last, stride) ==
    /\ Pos(Len(s), first) \in 0..Len(s) /\ Pos(Len(s), last) \in 0..Len(s) /\ stride >= 1
Cat(ids) == FlattenSeq([i \in 1..Len(ids) |-> lists[ids[i]]])
\* the functions handed to map: x -> a * x + b, or x -> x % a
Fn(kind, a, b, x) == IF kind = 0 THEN a * x + b ELSE x % a
Map(s, kind, a, b) == [i \in 1..Len(s) |-> Fn(kind, a, b, s[i])]

Set(i, s) == lists' = [lists EXCEPT ![i] = s]
=============================================================================
