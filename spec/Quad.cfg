SPECIFICATION Spec
CONSTANTS
  MaxNP = 7
  MaxNB = 6
  MaxPts = 40
INVARIANTS RulesExact Assembled Emit
CHECK_DEADLOCK FALSE
