CONSTANTS
  TT <- TTd
  CC <- CCd
  GS <- GSd
SPECIFICATION TSpec
INVARIANTS
  Verdict
CHECK_DEADLOCK FALSE
