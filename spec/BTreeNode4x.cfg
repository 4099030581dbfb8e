SPECIFICATION Spec
CONSTANTS N = 4 K = 17 M = 16
INVARIANTS Results Contents Balanced Sizes Links NoLeak Rightmost Walkable
VIEW View
CHECK_DEADLOCK FALSE
