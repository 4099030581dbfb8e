------------------------------- MODULE BitVec -------------------------------
(***************************************************************************)
(* gtl::bit_vector as sequences of booleans: n[c] is the length of vector  *)
(* c and b[c] the set of positions holding true.  A view (c, f, l) denotes *)
(* the positions f..l-1; its own position i is position f+i of the vector. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES n, b
bvars == <<n, b>>
BInit(k) == n = [c \in 1..k |-> 0] /\ b = [c \in 1..k |-> {}]

Pos(f, l) == f..(l - 1)
(* the content of a view, renumbered from 0 *)
Sub(S, f, l) == {p - f : p \in S \cap Pos(f, l)}
(* the vector with the positions of the view replaced by the renumbered set X *)
Put(S, f, l, X) == (S \ Pos(f, l)) \cup {f + x : x \in {y \in X : y < l - f}}
(* << moves towards lower positions, >> towards higher ones; zeroes come in *)
Shl(X, k) == {x - k : x \in {y \in X : y >= k}}
Shr(X, k, len) == {x + k : x \in {y \in X : y + k < len}}
Bin(op, X, Y, len) ==
  CASE op = "or" -> X \cup Y
    [] op = "and" -> X \cap Y
    [] op = "xor" -> (X \cup Y) \ (X \cap Y)
    [] op = "sub" -> X \ Y
    [] op = "ornot" -> X \cup (Pos(0, len) \ Y)
    [] op = "set" -> Y
MinS(X) == CHOOSE x \in X : \A y \in X : x <= y
First(X, from) == LET Z == {x \in X : x >= from} IN IF Z = {} THEN -1 ELSE MinS(Z)
Resized(c, k, v) == (b[c] \cap Pos(0, k)) \cup (IF v = 1 THEN Pos(n[c], k) ELSE {})
=============================================================================
