SPECIFICATION TraceSpec
INVARIANT Whole
ALIAS Brief
