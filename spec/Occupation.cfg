SPECIFICATION Spec
CONSTANTS
  NmoMax = 3
  Unit = 4000
  Small = {1, 100, 300}
  MSet = {0, 1, 2}
INVARIANTS Conserved Aufbau AllPlaced Emit
CHECK_DEADLOCK FALSE
