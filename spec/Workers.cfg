SPECIFICATION Spec
CONSTANTS
  Shapes = { <<1,2>>, <<2,1>>, <<2,2>>, <<3,1>> }
  Calls = 2
  MaxDeaths = 1
  OrdersInLast = TRUE
INVARIANTS Own Surfaces Emit
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
