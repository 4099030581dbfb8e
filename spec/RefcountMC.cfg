SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3}
 MaxHold = 3
INVARIANTS CountIsHolders DestroyedOnce NotWhileHeld
PROPERTY NeverLost
