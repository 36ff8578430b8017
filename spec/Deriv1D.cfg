SPECIFICATION Spec
CONSTANTS
  MaxHalf = 5
  MaxExtra = 5
INVARIANTS AngularLaws RadialExact Emit
CHECK_DEADLOCK FALSE
