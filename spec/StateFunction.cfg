SPECIFICATION Spec
CONSTANTS
  Names = {"HeH"}
  Steps = 1
INVARIANTS StateFunction Weights Emit
CHECK_DEADLOCK FALSE
