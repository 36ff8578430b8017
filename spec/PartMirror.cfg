SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Setups <- AllSetups
INVARIANTS Pair Own Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE
