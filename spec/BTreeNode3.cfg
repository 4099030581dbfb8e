SPECIFICATION Spec
CONSTANTS N = 3 K = 13 M = 16
INVARIANTS Results Contents Balanced Sizes Links NoLeak Rightmost Walkable
VIEW View
CHECK_DEADLOCK FALSE
