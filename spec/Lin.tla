-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* Linearizability of the parallel hash containers.                        *)
(*                                                                         *)
(* A configuration says what the containers hold and how far each thread's *)
(* pending call has got; cf is the set of all configurations compatible    *)
(* with what has been observed so far (the subset construction, so that an *)
(* observation nothing explains empties cf and the behaviour deadlocks).   *)
(*                                                                         *)
(* A call on one key takes effect in one atomic step.  A call that visits  *)
(* all submaps takes one atomic step per submap, in any order.  While a    *)
(* callback runs on a submap, no other thread's step may touch that submap *)
(* (if the callback may modify) or modify it (if it only reads): that is   *)
(* the locking the containers promise.                                     *)
(*                                                                         *)
(* Containers are tuples over keys 0..K-1 (index k+1), None = absent.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == -1
NT == 4

VARIABLES
    cf,   \* the configurations
    ins   \* callbacks running now: set of <<thread, container, submap, mode>>

lvars == <<cf, ins>>

Idle == [op |-> "idle", c |-> 0, k |-> 0, v |-> 0, d |-> 0, thr |-> 0, rem |-> {}, acc |-> <<>>]

\* the submaps a call visits
Targets(op, sub, k, d, S) ==
    CASE op \in {"ins", "put", "asg", "idx", "has", "get", "mod", "era", "eif", "tel", "lel", "tog"} -> {sub[k+1]}
      [] op \in {"cls", "sub", "subm"} -> {d + 1}
      [] op = "rsv" -> {}            \* reserve, rehash, prefetch: no observable effect of their own
      [] OTHER -> 1..S

\* restriction of a container to submap x / to the others
In(m, sub, x) == [i \in 1..Len(m) |-> IF sub[i] = x THEN m[i] ELSE None]
Upd(m, sub, x, f) == [i \in 1..Len(m) |-> IF sub[i] = x THEN f[i] ELSE m[i]]
Merge2(a, b) == [i \in 1..Len(a) |-> IF a[i] # None THEN a[i] ELSE b[i]]
NoneOf(m, sub, x) == \A i \in 1..Len(m) : sub[i] = x => m[i] = None

(***************************************************************************)
(* One atomic step of call p on submap x: <<new contents, new pending>>.   *)
(***************************************************************************)
Done(p, r) == [p EXCEPT !.rem = {}, !.acc = r]
Apply(mm, p, x, sub) ==
    LET c == p.c
        m == mm[c]
        k == p.k + 1
        has == m[k] # None
        old == m[k]
        put(v) == [mm EXCEPT ![c][k] = v]
        nx(a) == [p EXCEPT !.rem = @ \ {x}, !.acc = a]
        threw == Done(p, <<-9>>)
        B(b) == IF b THEN 1 ELSE 0
    IN
    CASE p.op = "ins" -> IF has THEN <<mm, Done(p, <<0>>)>> ELSE <<put(p.v), Done(p, <<1>>)>>
      [] p.op = "put" -> IF has THEN <<mm, Done(p, <<>>)>> ELSE <<put(p.v), Done(p, <<>>)>>
      [] p.op = "asg" -> <<put(p.v), Done(p, <<B(~has)>>)>>
      [] p.op = "idx" -> IF has THEN <<mm, Done(p, <<>>)>> ELSE <<put(0), Done(p, <<>>)>>
      [] p.op = "has" -> <<mm, Done(p, <<B(has)>>)>>
      [] p.op = "get" -> <<mm, IF has /\ p.thr = 1 THEN threw ELSE Done(p, <<B(has), old>>)>>
      [] p.op = "mod" -> IF ~has THEN <<mm, Done(p, <<0, None>>)>>
                         ELSE IF p.thr = 1 THEN <<mm, threw>>
                         ELSE <<put(old + p.d), Done(p, <<1, old>>)>>
      [] p.op = "era" -> IF has THEN <<put(None), Done(p, <<1>>)>> ELSE <<mm, Done(p, <<0>>)>>
      [] p.op = "eif" -> IF ~has THEN <<mm, Done(p, <<0, None>>)>>
                         ELSE IF p.thr = 1 THEN <<mm, threw>>
                         ELSE IF old % 2 = p.d THEN <<put(None), Done(p, <<1, old>>)>>
                         ELSE <<mm, Done(p, <<0, old>>)>>
      [] p.op = "tel" -> IF ~has THEN <<put(p.v), Done(p, <<1, None>>)>>
                         ELSE IF p.thr = 1 THEN <<mm, threw>>
                         ELSE <<put(old + p.d), Done(p, <<0, old>>)>>
      [] p.op = "lel" -> IF p.thr = 1 THEN <<mm, threw>>
                         ELSE IF has THEN <<put(old + p.d), Done(p, <<0, old>>)>>
                         ELSE <<put(p.v), Done(p, <<1, None>>)>>
      [] p.op = "tog" -> IF has THEN <<put(None), Done(p, <<0>>)>> ELSE <<put(p.v), Done(p, <<1>>)>>
      [] p.op \in {"clr", "cls"} -> <<[mm EXCEPT ![c] = Upd(m, sub, x, [i \in 1..Len(m) |-> None])], nx(<<>>)>>
      [] p.op = "bkt" -> <<mm, nx(<<>>)>>
      [] p.op = "each" -> IF p.thr = 1 /\ ~NoneOf(m, sub, x) THEN <<mm, threw>>
                          ELSE <<mm, nx(Merge2(p.acc, In(m, sub, x)))>>
      [] p.op = "eachm" -> IF p.thr = 1 /\ ~NoneOf(m, sub, x) THEN <<mm, threw>>
                           ELSE <<[mm EXCEPT ![c] = Upd(m, sub, x, [i \in 1..Len(m) |-> IF m[i] = None THEN None ELSE m[i] + p.d])],
                                  nx(Merge2(p.acc, In(m, sub, x)))>>
      [] p.op = "sub" -> <<mm, IF p.thr = 1 THEN threw ELSE nx(In(m, sub, x))>>
      [] p.op = "subm" -> IF p.thr = 1 THEN <<mm, threw>>
                          ELSE <<[mm EXCEPT ![c] = Upd(m, sub, x, [i \in 1..Len(m) |-> IF (i-1) % p.v = 0 THEN None ELSE m[i]])],
                                 nx(In(m, sub, x))>>
      [] p.op = "swp" -> <<[mm EXCEPT ![c] = Upd(m, sub, x, mm[p.d+1]), ![p.d+1] = Upd(@, sub, x, m)], nx(<<>>)>>
      [] p.op = "mrg" -> LET o == mm[p.d+1] IN
                         <<[mm EXCEPT ![c] = Upd(m, sub, x, Merge2(m, o)),
                                      ![p.d+1] = Upd(o, sub, x, [i \in 1..Len(o) |-> IF m[i] = None THEN None ELSE o[i]])], nx(<<>>)>>
      [] p.op = "eq" -> IF In(m, sub, x) # In(mm[p.d+1], sub, x) THEN <<mm, Done(p, <<0>>)>> ELSE <<mm, nx(<<1>>)>>
      [] OTHER -> <<mm, p>>

\* may thread t take a step of call p on submap x now, given whether the step changes anything?
Conts(p) == IF p.op \in {"swp", "mrg", "eq"} THEN {p.c, p.d + 1} ELSE {p.c}
Free(t, p, x, inside, changes) ==
    \A q \in inside : q[1] = t \/ q[2] \notin Conts(p) \/ q[3] # x \/ (q[4] = 0 /\ ~changes)

Steps(g, t, sub, inside) ==
    { [m |-> r[2][1], p |-> [g.p EXCEPT ![t] = r[2][2]]] :
        r \in {s \in {<<x, Apply(g.m, g.p[t], x, sub)>> : x \in g.p[t].rem} : Free(t, g.p[t], s[1], inside, s[2][1] # g.m)} }
Succ(g, sub, inside) == UNION {Steps(g, t, sub, inside) : t \in 1..NT}

RECURSIVE Close(_, _, _, _)
Close(all, new, sub, inside) ==
    IF new = {} THEN all
    ELSE LET s == (UNION {Succ(g, sub, inside) : g \in new}) \ all IN Close(all \cup s, s, sub, inside)
Closure(gs, sub, inside) == Close(gs, gs, sub, inside)

LInit == cf = {} /\ ins = {}

(***************************************************************************)
(* Observations.                                                           *)
(***************************************************************************)
New(a, b) == cf' = {[m |-> <<a, b>>, p |-> [t \in 1..NT |-> Idle]]} /\ ins' = {}

Call(t, op, c, k, v, d, thr, sub, S) ==
    LET K == Len(sub)
        acc0 == IF op \in {"each", "eachm"} THEN [i \in 1..K |-> None] ELSE <<>>
        p == [op |-> op, c |-> c, k |-> k, v |-> v, d |-> d, thr |-> thr, rem |-> Targets(op, sub, k, d, S), acc |-> acc0]
    IN /\ \A g \in cf : g.p[t].op = "idle"
       /\ cf' = Closure({[g EXCEPT !.p[t] = p] : g \in cf}, sub, ins)
       /\ UNCHANGED ins

Ret(t, res) ==
    LET ok == {g \in cf : g.p[t].rem = {} /\ g.p[t].acc = res} IN
    /\ \A q \in ins : q[1] # t
    /\ ok # {}
    /\ cf' = {[g EXCEPT !.p[t] = Idle] : g \in ok}
    /\ UNCHANGED ins

\* a callback may start only where no conflicting callback runs; whatever could happen before has been accounted for
CbIn(t, c, x, mode) ==
    /\ \A q \in ins : q[1] # t
    /\ \A q \in ins : (q[2] = c /\ q[3] = x) => (q[4] = 0 /\ mode = 0)
    /\ ins' = ins \cup {<<t, c, x, mode>>}
    /\ UNCHANGED cf
CbOut(t, sub) ==
    /\ \E q \in ins : q[1] = t
    /\ ins' = {q \in ins : q[1] # t}
    /\ cf' = Closure(cf, sub, ins')

Quiet(a, b, held) ==
    /\ held = 0 /\ ins = {}
    /\ LET ok == {g \in cf : g.m = <<a, b>> /\ \A t \in 1..NT : g.p[t].op = "idle"} IN ok # {} /\ cf' = ok
    /\ UNCHANGED ins
=============================================================================
