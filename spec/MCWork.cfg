CONSTANTS
  TT <- TTd
  GS <- GSd
SPECIFICATION WSpec
INVARIANTS
  OncePerPlace
  LinearWork
  ShallowStack
  Counted
  Emit
PROPERTIES
  Ends
CHECK_DEADLOCK FALSE
