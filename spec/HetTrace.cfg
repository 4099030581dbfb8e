SPECIFICATION HetSpec
INVARIANT CountInv
CHECK_DEADLOCK TRUE
ALIAS Brief
