SPECIFICATION Spec
CONSTANTS
  Grids = { <<2,1,1>>, <<2,2,1>>, <<2,1,3>>, <<2,4,2>>, <<2,3,5>>, <<3,2,1>>, <<3,1,3>>, <<4,1,2>>, <<4,2,1>>, <<5,2,1>>, <<3,3,2>> }
  MaxLen = 4
  ColCounts = {0, 1, 2, 3}
INVARIANTS NormalForm Bijective KeepsLayer Emit
CHECK_DEADLOCK FALSE
