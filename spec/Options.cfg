SPECIFICATION Spec
CONSTANTS
  Entries = {"ks", "part", "inv", "solver", "ks.scf", "part.scf"}
  MaxKeys = 1
INVARIANTS Exactly Strict Emit
CHECK_DEADLOCK FALSE
