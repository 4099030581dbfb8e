SPECIFICATION Spec
CONSTANTS
  W = 4
  Keys = {0, 1, 2, 3, 4}
  HashIds = {0, 1, 2, 3, 4, 5, 6, 7}
  MaxCap = 7
CONSTRAINT Bound
INVARIANTS SizeOk Implements Consistent LoadOk GrowthLeft EveryProbeEnds
CHECK_DEADLOCK FALSE
