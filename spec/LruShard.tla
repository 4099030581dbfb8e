------------------------------ MODULE LruShard ------------------------------
(* One shard of lru_cache_impl (lru_cache.hpp): a hash map from keys to nodes of a recency list, both guarded by the submap's
   lock.  Every step on the map or the list is a step of its own (a splice is an unlink and a link), threads interleave
   freely between them, and what they may interleave with is decided by the lock alone.

   Checked against the abstract cache (Cache.tla): gets return the last value inserted, the keys are the Max most recently
   used ones, least recently used first out.  Excl = FALSE is get() under a shared lock, as before the repair a32cee5: TLC finds
   the corrupted list (LruShardBad.cfg). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, None, Keys, Vals, Max, Budget, Excl
VARIABLES w, r,      \* the lock: writer, readers
          map,       \* keys in the map (the node designated is the one of that key)
          list,      \* sequence of [k, v], most recent first
          th,        \* th[t] = [op, pc, k, v, res, left]
          abs, ok    \* abstract cache: sequence of [k, v]; were all results right so far
vars == <<w, r, map, list, th, abs, ok>>
Nop == [op |-> "idle", pc |-> 0, k |-> None, v |-> 0, res |-> 0]
Init == /\ w = None /\ r = {} /\ map = {} /\ list = <<>> /\ abs = <<>> /\ ok = TRUE
        /\ th = [t \in T |-> Nop @@ [left |-> Budget]]
Set(t, f) == th' = [th EXCEPT ![t] = [x \in DOMAIN @ |-> IF x \in DOMAIN f THEN f[x] ELSE @[x]]]
At(t, op, pc) == th[t].op = op /\ th[t].pc = pc
Without(s, k) == SelectSeq(s, LAMBDA e : e.k # k)
ValOf(s, k) == IF \E i \in DOMAIN s : s[i].k = k THEN s[CHOOSE i \in DOMAIN s : s[i].k = k].v ELSE 0
Has(s, k) == \E i \in DOMAIN s : s[i].k = k
Front(t, v) == <<[k |-> th[t].k, v |-> v]>>
SharedGet == ~Excl

Start(t) == /\ th[t].op = "idle" /\ th[t].left > 0
            /\ \E k \in Keys :
                 \/ \E v \in Vals : Set(t, [op |-> "ins", pc |-> 0, k |-> k, v |-> v, left |-> th[t].left - 1])
                 \/ \E op \in {"get", "has", "clr"} : Set(t, [op |-> op, pc |-> 0, k |-> k, v |-> 0, left |-> th[t].left - 1])
            /\ UNCHANGED <<w, r, map, list, abs, ok>>
LockW(t) == w = None /\ r = {} /\ w' = t /\ UNCHANGED r
LockR(t) == w = None /\ r' = r \cup {t} /\ UNCHANGED w
Unlock(t) == /\ IF w = t THEN w' = None /\ UNCHANGED r ELSE r' = r \ {t} /\ UNCHANGED w
             /\ Set(t, Nop)
Lck(t) == UNCHANGED <<w, r>>

Ins(t) ==
  \/ At(t, "ins", 0) /\ LockW(t) /\ Set(t, [pc |-> IF th[t].k \in map THEN 1 ELSE 3])
     /\ abs' = (LET s == Front(t, th[t].v) \o Without(abs, th[t].k) IN IF Len(s) > Max THEN SubSeq(s, 1, Max) ELSE s)
     /\ UNCHANGED <<map, list, ok>>
  \* present: assign the value and splice the node to the front
  \/ At(t, "ins", 1) /\ list' = Without(list, th[t].k) /\ Set(t, [pc |-> 2]) /\ Lck(t) /\ UNCHANGED <<map, abs, ok>>
  \/ At(t, "ins", 2) /\ list' = Front(t, th[t].v) \o list /\ Set(t, [pc |-> 7]) /\ Lck(t) /\ UNCHANGED <<map, abs, ok>>
  \* absent: push_front, construct the map entry, pop the oldest and erase its key
  \/ At(t, "ins", 3) /\ list' = Front(t, th[t].v) \o list /\ Set(t, [pc |-> 4]) /\ Lck(t) /\ UNCHANGED <<map, abs, ok>>
  \/ At(t, "ins", 4) /\ map' = map \cup {th[t].k} /\ Set(t, [pc |-> IF Len(list) > Max THEN 5 ELSE 7]) /\ Lck(t)
     /\ UNCHANGED <<list, abs, ok>>
  \/ At(t, "ins", 5) /\ Set(t, [pc |-> 6, k |-> list[Len(list)].k]) /\ list' = SubSeq(list, 1, Len(list) - 1) /\ Lck(t)
     /\ UNCHANGED <<map, abs, ok>>
  \/ At(t, "ins", 6) /\ map' = map \ {th[t].k} /\ Set(t, [pc |-> 7]) /\ Lck(t) /\ UNCHANGED <<list, abs, ok>>
  \/ At(t, "ins", 7) /\ Unlock(t) /\ UNCHANGED <<map, list, abs, ok>>

Get(t) ==
  \/ At(t, "get", 0) /\ (IF SharedGet THEN LockR(t) ELSE LockW(t)) /\ Set(t, [pc |-> IF th[t].k \in map THEN 1 ELSE 4])
     /\ abs' = (IF Has(abs, th[t].k) THEN Front(t, ValOf(abs, th[t].k)) \o Without(abs, th[t].k) ELSE abs)
     /\ ok' = (ok /\ (Has(abs, th[t].k) <=> th[t].k \in map))
     /\ UNCHANGED <<map, list>>
  \/ At(t, "get", 1) /\ Set(t, [pc |-> 2, res |-> ValOf(list, th[t].k)]) /\ ok' = (ok /\ ValOf(list, th[t].k) = ValOf(abs, th[t].k))
     /\ Lck(t) /\ UNCHANGED <<map, list, abs>>
  \/ At(t, "get", 2) /\ list' = Without(list, th[t].k) /\ Set(t, [pc |-> 3]) /\ Lck(t) /\ UNCHANGED <<map, abs, ok>>
  \/ At(t, "get", 3) /\ list' = Front(t, th[t].res) \o list /\ Set(t, [pc |-> 4]) /\ Lck(t) /\ UNCHANGED <<map, abs, ok>>
  \/ At(t, "get", 4) /\ Unlock(t) /\ UNCHANGED <<map, list, abs, ok>>

Ex(t) ==
  \/ At(t, "has", 0) /\ LockR(t) /\ Set(t, [pc |-> 1]) /\ ok' = (ok /\ (Has(abs, th[t].k) <=> th[t].k \in map))
     /\ UNCHANGED <<map, list, abs>>
  \/ At(t, "has", 1) /\ Unlock(t) /\ UNCHANGED <<map, list, abs, ok>>

Clr(t) ==
  \/ At(t, "clr", 0) /\ LockW(t) /\ map' = {} /\ abs' = <<>> /\ Set(t, [pc |-> 1]) /\ UNCHANGED <<list, ok>>
  \/ At(t, "clr", 1) /\ list' = <<>> /\ Set(t, [pc |-> 2]) /\ Lck(t) /\ UNCHANGED <<map, abs, ok>>
  \/ At(t, "clr", 2) /\ Unlock(t) /\ UNCHANGED <<map, list, abs, ok>>

Next == \/ \E t \in T : Start(t) \/ Ins(t) \/ Get(t) \/ Ex(t) \/ Clr(t)
        \/ (\A t \in T : th[t].op = "idle" /\ th[t].left = 0) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Sym == Permutations(T) \cup Permutations(Keys)
Results == ok
Quiet == w = None /\ r = {}
Agrees == Quiet => /\ list = abs
                   /\ map = {abs[i].k : i \in DOMAIN abs}
                   /\ Len(list) <= Max
=============================================================================
