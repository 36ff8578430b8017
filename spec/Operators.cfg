SPECIFICATION Spec
CONSTANTS
  MaxHalf = 3
  MaxExtra = 5
INVARIANTS ParityLaw LineLaw ConstLaw EmitOps
CHECK_DEADLOCK FALSE
