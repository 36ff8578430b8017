SPECIFICATION Spec
CONSTANTS
  Base = <<-9, -5>>
  Coup = <<2, 1>>
  Vs = { <<<<0,0>>,<<0,0>>>>, <<<<0,3>>,<<0,0>>>>, <<<<3,0>>,<<1,1>>>>, <<<<1,1>>,<<-1,-1>>>>, <<<<-3,0>>,<<-6,-6>>>>, <<<<4,4>>,<<0,0>>>> }
  NmoMax = 3
  MaxSteps = 4
INVARIANTS FreshExact ParityPure Emit
CHECK_DEADLOCK FALSE
