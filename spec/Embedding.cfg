SPECIFICATION Spec
CONSTANTS
  Wanted = {"He2"}
  Dens = {1, 3}
  Pots <- DefPots
  Mix <- DefMix
INVARIANTS Update FixedPoint Energies Conserved Emit
CHECK_DEADLOCK FALSE
