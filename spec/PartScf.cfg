SPECIFICATION Spec
CONSTANTS
  Mirror = <<3, 2, 1, 6, 5, 4>>
  HMat = <<<<2, 1, 0, 1, 0, -1>>, <<1, 3, 1, 0, 1, 0>>, <<0, 1, 2, -1, 0, 1>>, <<1, 0, -1, 4, 1, 0>>, <<0, 1, 0, 1, 5, 1>>, <<-1, 0, 1, 0, 1, 4>>>>
  XF = <<1, 1, 2, 1, 0>>
  CF = <<0, 2, 3, 5, 1>>
  KF = <<1, 3, 4, 2, 1>>
  Configs <- SomeConfigs

INVARIANTS Conserves Molecule Pair NotEarly NotLate Isolated FrozenKeeps Emit
CHECK_DEADLOCK FALSE
