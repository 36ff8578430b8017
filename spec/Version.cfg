SPECIFICATION Spec
CONSTANTS
  MaxC = 2
  Jumps <- SomeJumps
  MaxT = 2
  TagNames <- SomeTags
  Branches <- TwoBranches
  Styles <- AllStyles
  Prefixes <- TwoPrefixes
  Levels <- AllLevels
  Quirks <- AllQuirks
INVARIANTS Release NotARelease Never FrozenStays Emit
CHECK_DEADLOCK FALSE
