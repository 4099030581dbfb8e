SPECIFICATION TraceSpec
CHECK_DEADLOCK TRUE
ALIAS Brief
