SPECIFICATION Spec
CONSTANTS T = {t1, t2}
 None = None
 Keys = {k1, k2, k3, k4}
 Vals = {1, 2}
 Max = 3
 Budget = 3
 Excl = TRUE
SYMMETRY Sym
INVARIANTS Results Agrees
CHECK_DEADLOCK TRUE
