SPECIFICATION Spec
CONSTANTS T = {t1, t2, t3}
 None = None
 S = 1
 Calls = {"has", "ins", "del", "each", "eq", "swap", "merge"}
 Budget = 1
 Fair = TRUE
 Recheck = TRUE
 Ordered = TRUE
SYMMETRY Sym
INVARIANTS ExactlyOnce Stable Exclusion NoLeak
CHECK_DEADLOCK TRUE
