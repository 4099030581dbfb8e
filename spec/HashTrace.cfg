SPECIFICATION TraceSpec
INVARIANT CountInv
CHECK_DEADLOCK TRUE
ALIAS Brief
