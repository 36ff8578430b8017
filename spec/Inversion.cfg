SPECIFICATION Spec
CONSTANTS
  Systems <- SomeSystems
  Programs <- SomePrograms
INVARIANTS EigenEq Orthogonal Ordered Positive Counts Integrates VonWeizsaecker SymPure GoodOnes Emit
CHECK_DEADLOCK FALSE
