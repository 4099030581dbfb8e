SPECIFICATION Spec
CONSTANTS
  W = 4
  Keys = {0, 1, 2, 3, 4, 5, 6}
  HashIds = {0, 1, 3, 5, 6}
  MaxCap = 15
CONSTRAINT Bound
INVARIANTS SizeOk Implements Consistent LoadOk GrowthLeft EveryProbeEnds NoBlowUp
CHECK_DEADLOCK FALSE
