SPECIFICATION Spec
CONSTANTS T = {t1, t2, t3}
 None = None
 S = 1
 Calls = {"ins", "del"}
 Budget = 2
 Fair = TRUE
 Recheck = FALSE
 Ordered = TRUE
SYMMETRY Sym
INVARIANTS ExactlyOnce Stable Exclusion NoLeak
CHECK_DEADLOCK TRUE
