SPECIFICATION Spec
CONSTANTS T = {t1, t2}
 None = None
 Keys = {k1, k2, k3}
 Vals = {1, 2}
 Max = 2
 Budget = 3
 Excl = FALSE
SYMMETRY Sym
INVARIANTS Results Agrees
CHECK_DEADLOCK TRUE
