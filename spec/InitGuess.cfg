SPECIFICATION Spec
CONSTANTS
  Systems <- SomeGuesses
INVARIANTS Weighted Unity Ritz InOrder Spanning EnoughStates Emit
CHECK_DEADLOCK FALSE
