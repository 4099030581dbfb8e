------------------------------ MODULE ParLocks ------------------------------
(* The locking protocol of the parallel containers (phmap.hpp): two containers of S submaps, each submap with a
   reader/writer lock; threads run any calls in any interleaving of their lock operations:

     has    shared lock, look                              (if_contains, contains, find, count)
     ins    exclusive lock, look and insert                (insert, emplace, lazy_emplace_l, try_emplace_l)
     del    shared lock, look; release; exclusive lock, LOOK AGAIN, erase           (erase, erase_if)
     each   the submaps one after the other under the exclusive lock, emptying them (clear, for_each_m)
     eq     the submaps one after the other, both shared locks                      (operator==)
     swap   the submaps one after the other, both exclusive locks by std::lock      (swap)
     merge  the submaps one after the other, both exclusive locks by std::lock      (merge)

   A submap is represented by the presence of one key.  std::lock is modelled as libstdc++ implements it: lock one, try the
   other, on failure release and start with the other.  With Fair, a waiting writer keeps new readers out (boost's and most
   native reader/writer locks); without, it does not (glibc's default).

   Recheck = FALSE and Ordered = FALSE are the protocols the library had before the repairs be6e6fe and 9b724d7: TLC
   finds the violations (ParLocksBad*.cfg), which shows that this model can. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS T, None,  \* threads
          S,        \* submaps per container
          Calls,    \* kinds of calls
          Budget,   \* calls per thread
          Fair, Recheck, Ordered
C == {1, 2}                        \* containers, numbered in address order
Sub == 0..S-1
L == C \X Sub                      \* locks
Other(c) == 3 - c
VARIABLES lock,                    \* lock[l] = [w, r, q]: writer (or None), readers, writers waiting
          pres,                    \* pres[l]: is the key of the submap present
          th,                      \* th[t] = [op, pc, c, s, seen, left]
          net,                     \* net[l]: successful insertions minus successful erasures of that key
          ok
vars == <<lock, pres, th, net, ok>>

Idle == [op |-> "idle", pc |-> 0, c |-> 1, s |-> 0, seen |-> FALSE]
Init == /\ lock = [l \in L |-> [w |-> None, r |-> {}, q |-> {}]]
        /\ pres = [l \in L |-> FALSE] /\ net = [l \in L |-> 0]
        /\ th = [t \in T |-> [Idle EXCEPT !.op = "idle"] @@ [left |-> Budget]]
        /\ ok = TRUE

Whole == {"each", "eq", "swap", "merge"}
Set(t, r) == th' = [th EXCEPT ![t] = [x \in DOMAIN @ |-> IF x \in DOMAIN r THEN r[x] ELSE @[x]]]
Done(t) == Set(t, Idle)
\* the next submap, or the end of the call
NextSub(t) == IF th[t].s + 1 < S THEN Set(t, [pc |-> 0, s |-> th[t].s + 1]) ELSE Done(t)

Start(t) ==
  /\ th[t].op = "idle" /\ th[t].left > 0
  /\ \E op \in Calls, c \in C, s \in Sub :
       /\ op \in Whole => s = 0
       /\ th' = [th EXCEPT ![t] = [op |-> op, pc |-> 0, c |-> c, s |-> s, seen |-> FALSE, left |-> @.left - 1]]
  /\ UNCHANGED <<lock, pres, net, ok>>

(* lock operations: a writer first joins the queue, then acquires *)
CanR(l) == lock[l].w = None /\ (Fair => lock[l].q = {})
CanW(l) == lock[l].w = None /\ lock[l].r = {}
TakeR(t, l) == CanR(l) /\ lock' = [lock EXCEPT ![l].r = @ \cup {t}]
Queue(t, l) == lock' = [lock EXCEPT ![l].q = @ \cup {t}]
TakeW(t, l) == CanW(l) /\ lock' = [lock EXCEPT ![l].w = t, ![l].q = @ \ {t}]
FreeR(t, l) == lock' = [lock EXCEPT ![l].r = @ \ {t}]
FreeW(t, l) == lock' = [lock EXCEPT ![l].w = None]
At(t, op, pc) == th[t].op = op /\ th[t].pc = pc
Go(t, pc) == Set(t, [pc |-> pc])
Me(t) == <<th[t].c, th[t].s>>
It(t) == <<Other(th[t].c), th[t].s>>

Has(t) == \/ At(t, "has", 0) /\ TakeR(t, Me(t)) /\ Set(t, [pc |-> 1, seen |-> pres[Me(t)]]) /\ UNCHANGED <<pres, net, ok>>
          \/ At(t, "has", 1) /\ FreeR(t, Me(t)) /\ ok' = (ok /\ th[t].seen = pres[Me(t)]) /\ Done(t) /\ UNCHANGED <<pres, net>>

Ins(t) == \/ At(t, "ins", 0) /\ Queue(t, Me(t)) /\ Go(t, 1) /\ UNCHANGED <<pres, net, ok>>
          \/ At(t, "ins", 1) /\ TakeW(t, Me(t)) /\ Set(t, [pc |-> 2, seen |-> pres[Me(t)]]) /\ UNCHANGED <<pres, net, ok>>
          \/ At(t, "ins", 2) /\ FreeW(t, Me(t)) /\ Done(t) /\ ok' = (ok /\ th[t].seen = pres[Me(t)])
             /\ pres' = [pres EXCEPT ![Me(t)] = TRUE]
             /\ net' = [net EXCEPT ![Me(t)] = IF th[t].seen THEN @ ELSE @ + 1]

Del(t) == \/ At(t, "del", 0) /\ TakeR(t, Me(t)) /\ Set(t, [pc |-> 1, seen |-> pres[Me(t)]]) /\ UNCHANGED <<pres, net, ok>>
          \/ At(t, "del", 1) /\ FreeR(t, Me(t)) /\ (IF th[t].seen THEN Go(t, 2) ELSE Done(t)) /\ UNCHANGED <<pres, net, ok>>
          \/ At(t, "del", 2) /\ Queue(t, Me(t)) /\ Go(t, 3) /\ UNCHANGED <<pres, net, ok>>
          \/ At(t, "del", 3) /\ TakeW(t, Me(t)) /\ Set(t, [pc |-> 4, seen |-> IF Recheck THEN pres[Me(t)] ELSE TRUE])
             /\ UNCHANGED <<pres, net, ok>>
          \/ At(t, "del", 4) /\ FreeW(t, Me(t)) /\ Done(t) /\ UNCHANGED ok
             /\ pres' = [pres EXCEPT ![Me(t)] = FALSE]
             /\ net' = [net EXCEPT ![Me(t)] = IF th[t].seen THEN @ - 1 ELSE @]

Each(t) == \/ At(t, "each", 0) /\ Queue(t, Me(t)) /\ Go(t, 1) /\ UNCHANGED <<pres, net, ok>>
           \/ At(t, "each", 1) /\ TakeW(t, Me(t)) /\ Go(t, 2) /\ UNCHANGED <<pres, net, ok>>
           \/ At(t, "each", 2) /\ FreeW(t, Me(t)) /\ NextSub(t)
              /\ pres' = [pres EXCEPT ![Me(t)] = FALSE] /\ net' = [net EXCEPT ![Me(t)] = 0] /\ UNCHANGED ok

\* the two shared locks of ==, in address order or in argument order
Fst(t) == IF Ordered THEN <<1, th[t].s>> ELSE Me(t)
Snd(t) == IF Ordered THEN <<2, th[t].s>> ELSE It(t)
Eq(t) == \/ At(t, "eq", 0) /\ TakeR(t, Fst(t)) /\ Go(t, 1) /\ UNCHANGED <<pres, net, ok>>
         \/ At(t, "eq", 1) /\ TakeR(t, Snd(t)) /\ Set(t, [pc |-> 2, seen |-> (pres[Me(t)] = pres[It(t)])])
            /\ UNCHANGED <<pres, net, ok>>
         \/ At(t, "eq", 2) /\ FreeR(t, Me(t)) /\ Go(t, 3)
            /\ ok' = (ok /\ th[t].seen = (pres[Me(t)] = pres[It(t)])) /\ UNCHANGED <<pres, net>>
         \/ At(t, "eq", 3) /\ FreeR(t, It(t)) /\ (IF th[t].seen THEN NextSub(t) ELSE Done(t)) /\ UNCHANGED <<pres, net, ok>>

\* std::lock(a, b): seen says which of the two is locked first
A(t) == IF th[t].seen THEN It(t) ELSE Me(t)
B(t) == IF th[t].seen THEN Me(t) ELSE It(t)
Two(t, op) ==
  \/ At(t, op, 0) /\ Queue(t, A(t)) /\ Go(t, 1) /\ UNCHANGED <<pres, net, ok>>
  \/ At(t, op, 1) /\ TakeW(t, A(t)) /\ Go(t, 2) /\ UNCHANGED <<pres, net, ok>>
  \/ At(t, op, 2) /\ UNCHANGED <<pres, net, ok>>
     /\ IF CanW(B(t)) THEN TakeW(t, B(t)) /\ Go(t, 3)
        ELSE FreeW(t, A(t)) /\ Set(t, [pc |-> 0, seen |-> ~th[t].seen])
  \/ At(t, op, 3) /\ FreeW(t, Me(t)) /\ Go(t, 4) /\ UNCHANGED ok
     /\ CASE op = "swap" ->
               /\ pres' = [pres EXCEPT ![Me(t)] = pres[It(t)], ![It(t)] = pres[Me(t)]]
               /\ net' = [net EXCEPT ![Me(t)] = net[It(t)], ![It(t)] = net[Me(t)]]
          [] op = "merge" ->
               IF pres[It(t)] /\ ~pres[Me(t)]
               THEN /\ pres' = [pres EXCEPT ![Me(t)] = TRUE, ![It(t)] = FALSE]
                    /\ net' = [net EXCEPT ![Me(t)] = @ + 1, ![It(t)] = @ - 1]
               ELSE UNCHANGED <<pres, net>>
  \/ At(t, op, 4) /\ FreeW(t, It(t)) /\ UNCHANGED <<pres, net, ok>>
     /\ IF th[t].s + 1 < S THEN Set(t, [pc |-> 0, s |-> th[t].s + 1, seen |-> FALSE]) ELSE Done(t)

AllDone == \A t \in T : th[t].op = "idle" /\ th[t].left = 0
Next == \/ \E t \in T : Start(t) \/ Has(t) \/ Ins(t) \/ Del(t) \/ Each(t) \/ Eq(t) \/ Two(t, "swap") \/ Two(t, "merge")
        \/ AllDone /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Sym == Permutations(T)

(* a call reports success exactly as often as it changed the submap *)
ExactlyOnce == \A l \in L : net[l] = IF pres[l] THEN 1 ELSE 0
(* what a call saw under its lock still holds when it leaves *)
Stable == ok
Exclusion == \A l \in L : /\ (lock[l].w # None => lock[l].r = {})
                          /\ (lock[l].w # None => th[lock[l].w].op # "idle")
(* no lock outlives the call that took it *)
NoLeak == \A l \in L, t \in T : th[t].op = "idle" => lock[l].w # t /\ t \notin lock[l].r /\ t \notin lock[l].q
=============================================================================
