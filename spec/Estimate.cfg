SPECIFICATION Spec
CONSTANTS
  Charges = {0, 1, 2, 3, 7}
  MaxLevels = 4
  Ms = {0, 1, 2}
  MaxNmo = 3
INVARIANTS BelowIsLowest HigherFails Emit
CHECK_DEADLOCK FALSE
