-------------------------------- MODULE Soa --------------------------------
(***************************************************************************)
(* The structure of arrays: a sequence of rows.  However the columns are   *)
(* stored, every operation acts on whole rows.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE rows
Cols(w) == 1..w
Default(w) == [c \in Cols(w) |-> 0]
\* the orders used for sorting
Less(cmp, x, y) ==
    CASE cmp = 0 -> x < y
      [] cmp = 1 -> x > y
      [] cmp = 2 -> FALSE                       \* everything equivalent
      [] OTHER -> (x % cmp) < (y % cmp)
\* where row i goes in a stable sort by column c
Place(s, c, cmp, i) ==
    1 + Cardinality({j \in 1..Len(s) : Less(cmp, s[j][c], s[i][c]) \/ (~Less(cmp, s[i][c], s[j][c]) /\ j < i)})
IsStableSort(s, t, c, cmp) == Len(t) = Len(s) /\ \A i \in 1..Len(s) : t[Place(s, c, cmp, i)] = s[i]

Insert(r) == rows' = Append(rows, r)
Resize(n, w) == rows' = [i \in 1..n |-> IF i <= Len(rows) THEN rows[i] ELSE Default(w)]
Clear == rows' = <<>>
Set(i, c, v) == rows' = [rows EXCEPT ![i][c] = v]
Replace(i, r) == rows' = [rows EXCEPT ![i] = r]
Sort(c, cmp, t) == IsStableSort(rows, t, c, cmp) /\ rows' = t
=============================================================================
