SPECIFICATION Spec
CONSTANTS
  Levels <- SomeLevels
  Calls <- SomeCalls
INVARIANTS MinIsMin Streak NeverEarly NeverLate FirstHit Emit
CHECK_DEADLOCK FALSE
