SPECIFICATION Spec
CONSTANTS
  KMax = 2
  FuncIds = { <<1, "lda", TRUE>>, <<12, "lda", TRUE>>, <<9100, "lda", FALSE>>, <<101, "gga", TRUE>>, <<500, "gga", FALSE>>, <<9101, "gga", FALSE>>, <<9102, "gga", FALSE>>, <<9110, "gga", TRUE>> }
  Coefs = { [uu |-> 1, ud |-> 0, dd |-> 1, q |-> 0, r |-> 1, s |-> 0], [uu |-> 1, ud |-> 3, dd |-> 1, q |-> 0, r |-> 2, s |-> 0], [uu |-> 2, ud |-> -1, dd |-> 5, q |-> 3, r |-> 1, s |-> 7] }
INVARIANTS IsDerivative SpinCovariant Emit
CHECK_DEADLOCK FALSE
