SPECIFICATION Spec
CONSTANTS N = 3 K = 18 M = 20
INVARIANTS Results Contents Balanced Sizes Links NoLeak Rightmost Walkable
VIEW View
CHECK_DEADLOCK FALSE
