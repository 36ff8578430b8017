SPECIFICATION Spec
CONSTANTS
  Mirror = <<3, 2, 1, 6, 5, 4>>
  HMat = <<<<2, 1, 0, 1, 0, -1>>, <<1, 3, 1, 0, 1, 0>>, <<0, 1, 2, -1, 0, 1>>, <<1, 0, -1, 4, 1, 0>>, <<0, 1, 0, 1, 5, 1>>, <<-1, 0, 1, 0, 1, 4>>>>
  XF = <<1, 1, 2, 1, 0>>
  CF = <<0, 2, 3, 5, 1>>
  Configs <- SomeConfigs
  Runs <- SomeRuns
INVARIANTS Conserves ConservesAll NonNegative NotEarly SymPure FlipPure Consistent Emit
CHECK_DEADLOCK FALSE
