SPECIFICATION Spec
CONSTANTS
  Charges <- DefCharges
  Chunks <- DefChunks
  Rows = 3
  Adds = 2
  Deep = 3
  Least = 0
  Grids = {1}
  Pols = {1, 2}
  Kinds = {"atom", "pair", "ion", "ion sym"}
  Extras = {FALSE, TRUE}
INVARIANTS Filled Deeper Emit
CHECK_DEADLOCK FALSE
