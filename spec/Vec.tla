-------------------------------- MODULE Vec --------------------------------
(***************************************************************************)
(* gtl::vector as a family of value sequences.                             *)
(*   s[c]    the elements of container c                                   *)
(*   cap[c]  the capacity last reported for c                              *)
(* Positions are 0-based, as in the code.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES s, cap
vvars == <<s, cap>>

VInit(n) == s = [c \in 1..n |-> <<>>] /\ cap = [c \in 1..n |-> 0]

Pre(q, p) == SubSeq(q, 1, p)                       \* [0, p)
Suf(q, p) == SubSeq(q, p + 1, Len(q))              \* [p, end)
Reps(n, v) == [i \in 1..n |-> v]
InsAt(q, p, xs) == Pre(q, p) \o xs \o Suf(q, p)
Cut(q, a, b) == Pre(q, a) \o Suf(q, b)
Resized(q, n, v) == IF n <= Len(q) THEN Pre(q, n) ELSE q \o Reps(n - Len(q), v)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] < b[i] THEN TRUE ELSE IF b[i] < a[i] THEN FALSE ELSE LexLess(a, b, i + 1)

Become(c, q) == s' = [s EXCEPT ![c] = q]
VSame == UNCHANGED s
(* growth: capacity covers the contents; it changes only when it has to and never falls unless asked to *)
CapOk(c, n, k) == k >= n
=============================================================================
