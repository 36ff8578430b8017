SPECIFICATION Spec
CONSTANTS
  Charges = { <<0,1>>, <<1,1>>, <<2,1>>, <<3,1>>, <<7,1>>, <<1,2>>, <<5,4>> }
  Pols = {1, 2}
  SampleCh = { <<5,4>>, <<3,2>>, <<2,1>>, <<17,8>>, <<9,1>> }
  SampleCo = { <<0,1>>, <<1,3>>, <<-1,2>>, <<3,4>>, <<-7,8>> }
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
