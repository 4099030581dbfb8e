SPECIFICATION TraceSpec
INVARIANT InRange
CHECK_DEADLOCK TRUE
ALIAS Brief
