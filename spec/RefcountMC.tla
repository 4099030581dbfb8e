----------------------------- MODULE RefcountMC -----------------------------
(***************************************************************************)
(* The counting protocol itself: each thread owns some pointers to one     *)
(* object; taking a copy is one atomic increment, dropping one is one      *)
(* atomic decrement whose result decides who destroys the object.          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, MaxHold
VARIABLES cnt, hold, pc, dead, deletes
vars == <<cnt, hold, pc, dead, deletes>>
Init == \E t0 \in Threads : /\ cnt = 1 /\ hold = [t \in Threads |-> IF t = t0 THEN 1 ELSE 0]
                            /\ pc = [t \in Threads |-> "idle"] /\ dead = FALSE /\ deletes = 0
Inc(t)  == pc[t] = "idle" /\ hold[t] > 0 /\ hold[t] < MaxHold /\ cnt' = cnt + 1 /\ hold' = [hold EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, dead, deletes>>
Give(t, u) == pc[t] = "idle" /\ t # u /\ hold[t] > 0 /\ hold[u] < MaxHold /\ hold' = [hold EXCEPT ![t] = @ - 1, ![u] = @ + 1] /\ UNCHANGED <<cnt, pc, dead, deletes>>
Dec(t)  == pc[t] = "idle" /\ hold[t] > 0 /\ hold' = [hold EXCEPT ![t] = @ - 1] /\ cnt' = cnt - 1
           /\ pc' = [pc EXCEPT ![t] = IF cnt' = 0 THEN "del" ELSE "idle"] /\ UNCHANGED <<dead, deletes>>
Del(t)  == pc[t] = "del" /\ dead' = TRUE /\ deletes' = deletes + 1 /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<cnt, hold>>
Next == (\E t \in Threads : Inc(t) \/ Dec(t) \/ Del(t) \/ \E u \in Threads : Give(t, u)) \/ (dead /\ UNCHANGED vars)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
CountIsHolders == cnt = Sum(hold, Threads)
DestroyedOnce == deletes <= 1
NotWhileHeld == dead => cnt = 0
NeverLost == [](cnt = 0 => <>dead)
=============================================================================
