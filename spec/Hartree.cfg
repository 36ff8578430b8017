SPECIFICATION Spec
CONSTANTS
  MaxHalf = 2
  MaxExtra = 5
INVARIANTS LegendreLaws EmitHartree
CHECK_DEADLOCK FALSE
