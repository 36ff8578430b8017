SPECIFICATION Spec
CONSTANTS
  MaxOff = 3
  MaxLen = 4
  MaxHalf = 5
  Derivs = {1, 2}
INVARIANTS TaylorExact SymmetricParity Emit
CHECK_DEADLOCK FALSE
