SPECIFICATION Spec
CONSTANTS T = {t1, t2}
 None = None
 S = 2
 Calls = {"has", "ins", "del", "each", "eq", "swap", "merge"}
 Budget = 2
 Fair = FALSE
 Recheck = TRUE
 Ordered = TRUE
SYMMETRY Sym
INVARIANTS ExactlyOnce Stable Exclusion NoLeak
CHECK_DEADLOCK TRUE
