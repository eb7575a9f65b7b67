CONSTANTS
  TT <- TTd
  CC <- CCd
  GS <- GSd
SPECIFICATION Spec
INVARIANTS
  OnlyTokens
  Rereads
  Emit
CHECK_DEADLOCK FALSE
