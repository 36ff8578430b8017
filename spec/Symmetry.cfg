SPECIFICATION Spec
CONSTANTS
  Wanted = {"ni1"}
  Auto = {}
  Kind = "ks"
  Depth = 2
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
