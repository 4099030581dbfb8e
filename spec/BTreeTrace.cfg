SPECIFICATION TraceSpec
INVARIANT SortedInv
CHECK_DEADLOCK TRUE
ALIAS Brief
