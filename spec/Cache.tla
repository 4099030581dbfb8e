------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* The LRU cache and the memoizing wrappers, sequential and concurrent.    *)
(*                                                                         *)
(* A configuration says what every shard holds, most recently used entry   *)
(* first, and how far the calls in progress of each thread have got (a     *)
(* stack: a memoized function may call its own memoized version).  cf is   *)
(* the set of configurations compatible with what was observed; every call *)
(* takes effect in one atomic step, except that computing a missing value  *)
(* is visible as the invocation of the user's function.                    *)
(*                                                                         *)
(* Kinds: "lru"   the cache: get, exists, insert                           *)
(*        "memo"  memoization that calls the function outside any lock     *)
(*        "once"  memoization that computes each key at most once          *)
(*        "mlru"  "once" with a bounded number of results per shard        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NT == 4
VARIABLES cf, lim
cvars == <<cf, lim>>

Has(s, k) == \E i \in 1..Len(s) : s[i][1] = k
Pos(s, k) == CHOOSE i \in 1..Len(s) : s[i][1] = k
Val(s, k) == s[Pos(s, k)][2]
Drop(s, k) == SelectSeq(s, LAMBDA e : e[1] # k)
Front(s, k, v) == <<<<k, v>>>> \o Drop(s, k)              \* makes k the most recently used entry, with value v
CutLast(s) == SubSeq(s, 1, Len(s) - 1)

\* the lists that may result from adding a new key: one eviction, of the oldest entry, exactly when the bound is exceeded;
\* the memoizing variants may already make room when the bound is reached
Insertions(kind, s, k, v, M) ==
    LET n == Front(s, k, v) IN
    CASE kind \in {"memo", "once"} -> {n}
      [] Len(n) > M -> {CutLast(n)}
      [] Len(n) = M /\ kind = "mlru" -> {n, CutLast(n)}
      [] OTHER -> {n}

Frame(op, k, v, rem) == [op |-> op, k |-> k, v |-> v, st |-> "start", r |-> <<>>, rem |-> rem]
Top(g, t) == g.p[t][Len(g.p[t])]
SetTop(g, t, f) == [g EXCEPT !.p[t][Len(g.p[t])] = f]
Done(f, r) == [f EXCEPT !.st = "done", !.r = r]

(* the atomic steps thread t may take in configuration g *)
Steps(g, t, kind, sh, M) ==
    IF g.p[t] = <<>> THEN {}
    ELSE
    LET f == Top(g, t)
        x == IF f.k >= 0 THEN sh[f.k+1] ELSE 1
        s == g.c[x]
        hit == Has(s, f.k)
        put(n) == [g EXCEPT !.c[x] = n]
    IN
    CASE f.st \in {"done", "in"} -> {}
      [] f.op = "get" -> IF hit THEN {SetTop(put(Front(s, f.k, Val(s, f.k))), t, Done(f, <<1, Val(s, f.k)>>))}
                         ELSE {SetTop(g, t, Done(f, <<0>>))}
      [] f.op = "has" -> {SetTop(g, t, Done(f, IF hit THEN <<1>> ELSE <<0>>))}
      [] f.op = "look" -> {SetTop(g, t, Done(f, IF hit THEN <<1, Val(s, f.k)>> ELSE <<0>>))}
      [] f.op = "ins" -> IF hit THEN {SetTop(put(Front(s, f.k, f.v)), t, Done(f, <<>>))}
                         ELSE {SetTop(put(n), t, Done(f, <<>>)) : n \in Insertions(kind, s, f.k, f.v, M)}
      [] f.op = "clr" -> {LET q == [f EXCEPT !.rem = @ \ {y}] IN
                            SetTop([g EXCEPT !.c[y] = <<>>], t, IF q.rem = {} THEN Done(q, <<>>) ELSE q) : y \in f.rem}
      [] f.op = "call" /\ f.st = "out" ->
            IF hit THEN {SetTop(g, t, Done(f, <<f.v>>))}
            ELSE {SetTop(put(n), t, Done(f, <<f.v>>)) : n \in Insertions(kind, s, f.k, f.v, M)}
      [] f.op = "call" /\ f.st = "start" ->
            IF hit THEN {SetTop(IF kind = "mlru" THEN put(Front(s, f.k, Val(s, f.k))) ELSE g, t, Done(f, <<Val(s, f.k)>>))}
            ELSE IF kind = "memo" THEN {SetTop(g, t, [f EXCEPT !.st = "missed"])} ELSE {}
      [] OTHER -> {}

RECURSIVE Close(_, _, _, _, _)
Close(all, new, kind, sh, M) ==
    IF new = {} THEN all
    ELSE LET s == (UNION {UNION {Steps(g, t, kind, sh, M) : t \in 1..NT} : g \in new}) \ all
         IN Close(all \cup s, s, kind, sh, M)
Closure(gs, kind, sh) == Close(gs, gs, kind, sh, lim)

CInit == cf = {} /\ lim = 0

(***************************************************************************)
(* Observations.                                                           *)
(***************************************************************************)
New(S, M) == cf' = {[c |-> [x \in 1..S |-> <<>>], p |-> [t \in 1..NT |-> <<>>]]} /\ lim' = M
Limit(M) == (\A g \in cf : \A t \in 1..NT : g.p[t] = <<>>) /\ lim' = M /\ UNCHANGED cf

\* a call starts: from outside, or from inside the function the thread is computing
Call(t, op, k, v, kind, sh, S) ==
    /\ {g \in cf : g.p[t] # <<>> /\ Top(g, t).st # "in"} = {}
    /\ cf' = Closure({[g EXCEPT !.p[t] = Append(@, Frame(op, k, v, IF op = "clr" THEN {sh[i] : i \in 1..Len(sh)} ELSE {}))] : g \in cf}, kind, sh)
    /\ UNCHANGED lim
Ret(t, res) ==
    LET ok == {g \in cf : g.p[t] # <<>> /\ Top(g, t).st = "done" /\ Top(g, t).r = res} IN
    /\ ok # {}
    /\ cf' = {[g EXCEPT !.p[t] = CutLast(@)] : g \in ok}
    /\ UNCHANGED lim

Busy(g, t, k) == \E u \in 1..NT \ {t} : \E i \in 1..Len(g.p[u]) : g.p[u][i].op = "call" /\ g.p[u][i].k = k /\ g.p[u][i].st \in {"in", "out"}
\* the function starts to compute key k for thread t
FnIn(t, k, kind, sh) ==
    LET ok == {g \in cf : /\ g.p[t] # <<>> /\ Top(g, t).op = "call" /\ Top(g, t).k = k
                          /\ IF kind = "memo" THEN Top(g, t).st = "missed"
                             ELSE Top(g, t).st = "start" /\ ~Has(g.c[sh[k+1]], k) /\ ~Busy(g, t, k)}
    IN /\ ok # {}
       /\ cf' = {SetTop(g, t, [Top(g, t) EXCEPT !.st = "in"]) : g \in ok}
       /\ UNCHANGED lim
\* ... and ends, with a value or an exception
FnOut(t, k, v, thrown, kind, sh) ==
    LET ok == {g \in cf : g.p[t] # <<>> /\ Top(g, t).op = "call" /\ Top(g, t).k = k /\ Top(g, t).st = "in"} IN
    /\ ok # {}
    /\ cf' = Closure({SetTop(g, t, IF thrown = 1 THEN Done(Top(g, t), <<-9>>) ELSE [Top(g, t) EXCEPT !.st = "out", !.v = v]) : g \in ok}, kind, sh)
    /\ UNCHANGED lim

\* between calls: the keys cached are those of the model, the size is their number, no lock is held
Quiet(present, size, held) ==
    LET keys(g) == {g.c[x][i][1] : <<x, i>> \in {<<y, j>> \in (1..Len(g.c)) \X (1..100) : j <= Len(g.c[y])}}
        ok == {g \in cf : /\ \A t \in 1..NT : g.p[t] = <<>>
                          /\ keys(g) = {present[i] : i \in 1..Len(present)}
                          /\ Cardinality(keys(g)) = size}
    IN held = 0 /\ ok # {} /\ cf' = ok /\ UNCHANGED lim

(***************************************************************************)
(* What the property claims, on the model itself.                          *)
(***************************************************************************)
NoDuplicates == \A g \in cf : \A x \in 1..Len(g.c) : \A i, j \in 1..Len(g.c[x]) : g.c[x][i][1] = g.c[x][j][1] => i = j
=============================================================================
