SPECIFICATION TraceSpec
INVARIANT CapInv
CHECK_DEADLOCK TRUE
ALIAS Brief
