SPECIFICATION Spec
CONSTANTS
  Wells <- DefWells
  Centres <- DefCentres
  Fields <- DefFields
  MaxFields = 1
  Chunks <- DefChunks
  Rows = 3
  Adds = 2
  Depth = 4
  Grids = {1}
  Pols = {1, 2}
  Syms = {FALSE, TRUE}
  Respond = FALSE
  Extras = {FALSE, TRUE}
INVARIANTS Moved Ordered Virial Emit
CHECK_DEADLOCK FALSE
