SPECIFICATION Spec
CONSTANTS
  Base = <<-9, -5>>
  Coup = <<2, 1>>
  Vs = { <<<<0,0>>,<<0,0>>>>, <<<<0,3>>,<<0,0>>>>, <<<<3,0>>,<<1,1>>>>, <<<<-3,0>>,<<-6,-6>>>> }
  NmoMax = 3
  MSet = {0, 1, 2}
INVARIANTS Symmetric Neutral Repels Inert Emit
CHECK_DEADLOCK FALSE
