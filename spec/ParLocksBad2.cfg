SPECIFICATION Spec
CONSTANTS T = {t1, t2, t3, t4}
 None = None
 S = 1
 Calls = {"ins", "eq"}
 Budget = 1
 Fair = TRUE
 Recheck = TRUE
 Ordered = FALSE
SYMMETRY Sym
INVARIANTS ExactlyOnce Stable Exclusion NoLeak
CHECK_DEADLOCK TRUE
