SPECIFICATION Spec
CONSTANTS
  NPs = {2, 3, 4, 5}
  MaxBlocks = 5
  Halves = {1, 2, 3}
  MaxElem = 130
CONSTRAINT Small
INVARIANTS IndexBijective MirrorLaws Emit
CHECK_DEADLOCK FALSE
