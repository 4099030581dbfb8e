-------------------------------- MODULE Utils --------------------------------
(* Scope guards, value changes, timestamps and the generalized binary search (utils.hpp, adv_utils.hpp).

   Guards:  `stk` is the stack of open scopes, each holding one guard object.  A guard of kind "guard" owes one
   action when its scope ends, "su" (scoped_set_unset) also owes one when it is constructed, "sv" (scoped_set_value)
   assigns a variable and owes its restoration.  `ph` says what must happen next:
        "run"    ordinary code of the innermost scope runs
        "make"   a guard object is being constructed
        "set"    the constructor of an "su" guard has to run its action
        "unset"  the scope is ending and the action of its guard is owed
        "out"    the scope is ending and nothing is owed any more
   `val` are the values of the variables the guards and helpers work on.

   Timestamps: `ts` are the stamps of the timestamp objects, `clk` the newest stamp issued so far; stamps are
   sequences of limbs (most significant first), ordered lexicographically. *)
EXTENDS Integers, Sequences
VARIABLES val, stk, ph, ts, clk
uvars == <<val, stk, ph, ts, clk>>

Top == stk[Len(stk)]
Pop == SubSeq(stk, 1, Len(stk) - 1)
Bit(b) == IF b THEN 1 ELSE 0

\* ---------------------------------------------------------------- guards
Enter(id, kind, on, x, v) ==
    /\ ph = "run"
    /\ stk' = Append(stk, [id |-> id, kind |-> kind, on |-> on, x |-> x, old |-> IF x > 0 THEN val[x] ELSE 0])
    /\ ph' = IF kind = "su" /\ on THEN "set" ELSE "make"
    /\ val' = IF kind = "sv" /\ on THEN [val EXCEPT ![x] = v] ELSE val
    /\ UNCHANGED <<ts, clk>>
\* the construction of the guard of the innermost scope is over
Made(vals) == /\ ph = "make" /\ ph' = "run" /\ vals = val /\ UNCHANGED <<val, stk, ts, clk>>
\* an action of guard `id` runs and sets variable x to v; only the innermost guard may run one, when it owes one
Act(id, x, v) ==
    /\ ph \in {"set", "unset"} /\ Top.id = id
    /\ ph' = IF ph = "set" THEN "make" ELSE "out"
    /\ val' = [val EXCEPT ![x] = v]
    /\ UNCHANGED <<stk, ts, clk>>
\* the setting action throws: the guard was never constructed and owes nothing
SetThrows(id) == /\ ph = "set" /\ Top.id = id /\ ph' = "out" /\ UNCHANGED <<val, stk, ts, clk>>
Dismiss(id) ==
    /\ ph = "run"
    /\ stk' = [i \in 1..Len(stk) |-> IF stk[i].id = id THEN [stk[i] EXCEPT !.on = FALSE] ELSE stk[i]]
    /\ UNCHANGED <<val, ph, ts, clk>>
\* the innermost scope ends, by return or by an exception
Leave(id) ==
    /\ ph = "run" /\ Top.id = id
    /\ ph' = IF Top.on /\ Top.kind # "sv" THEN "unset" ELSE "out"
    /\ val' = IF Top.on /\ Top.kind = "sv" THEN [val EXCEPT ![Top.x] = Top.old] ELSE val
    /\ UNCHANGED <<stk, ts, clk>>
Left(id, vals) ==
    /\ ph = "out" /\ Top.id = id /\ vals = val
    /\ stk' = Pop /\ ph' = "run" /\ UNCHANGED <<val, ts, clk>>

\* ---------------------------------------------------------------- values
Assign(x, v) == ph = "run" /\ val' = [val EXCEPT ![x] = v] /\ UNCHANGED <<stk, ph, ts, clk>>
Change(x, v, res, assigned) ==
    /\ res = Bit(val[x] # v)
    /\ (res = 0 => assigned = 0)                                     \* an equal value is not assigned at all
    /\ Assign(x, v)
Replace(x, v, res) == res = val[x] /\ Assign(x, v)
See(vals) == vals = val /\ UNCHANGED uvars

\* ---------------------------------------------------------------- timestamps
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN FALSE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
Later(a, b) == IF Less(a, b) THEN b ELSE a
Zero == <<0, 0, 0>>
Fresh(i, s) == /\ Less(clk, s) /\ clk' = s /\ ts' = [ts EXCEPT ![i] = s] /\ UNCHANGED <<val, stk, ph>>
Stamp(i, s) == /\ ts' = [ts EXCEPT ![i] = s] /\ UNCHANGED <<val, stk, ph, clk>>
SetWithTs(i, x, v, res, s) ==
    /\ res = Bit(val[x] # v)
    /\ val' = [val EXCEPT ![x] = v]
    /\ IF res = 1 THEN Less(clk, s) /\ clk' = s ELSE s = ts[i] /\ UNCHANGED clk
    /\ ts' = [ts EXCEPT ![i] = s]
    /\ UNCHANGED <<stk, ph>>
Compare(a, b) == <<Bit(Less(b, a)), Bit(Less(a, b)), Bit(a = b), Bit(Less(a, b)), Bit(Less(b, a)), Bit(a # Zero), Bit(b # Zero)>>

\* ---------------------------------------------------------------- binary search
Base == 4194304
\* the predecessor of a value, limbs most significant first
RECURSIVE Dec(_)
Dec(a) == LET n == Len(a) IN
    IF a[n] > 0 THEN [a EXCEPT ![n] = @ - 1] ELSE Append(Dec(SubSeq(a, 1, n - 1)), Base - 1)
Leq(a, b) == a = b \/ Less(a, b)
\* the predicate is "v >= thr", l < thr <= r; lo, hi delimit the values the predicate was asked about
Search(l, r, thr, first, second, lo, hi) ==
    /\ second = thr /\ first = Dec(thr)
    /\ Leq(l, lo) /\ Leq(hi, r)
    /\ UNCHANGED uvars
\* with a caller's middle function that gives up on intervals not longer than g
SearchGap(l, r, thr, g, first, second) ==
    /\ l <= first /\ first < thr /\ thr <= second /\ second <= r /\ second - first <= g
    /\ UNCHANGED uvars
=============================================================================
