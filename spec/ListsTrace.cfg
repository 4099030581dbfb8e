SPECIFICATION TraceSpec
ALIAS Brief
