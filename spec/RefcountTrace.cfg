SPECIFICATION TraceSpec
INVARIANT AliveIffReferenced
INVARIANT NoDangling
ALIAS Brief
