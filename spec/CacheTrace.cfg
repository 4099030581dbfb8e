SPECIFICATION TraceSpec
INVARIANT NoDuplicates
ALIAS Brief
