SPECIFICATION Spec
CONSTANTS
  Setups <- SomeSetups
INVARIANTS StopIffPair OneIsNoFailure OnlyWatched FirstOnly Emit
CHECK_DEADLOCK FALSE
