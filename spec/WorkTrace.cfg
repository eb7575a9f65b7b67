CONSTANTS
  TT <- TTd
  GS <- GSd
SPECIFICATION TSpec
INVARIANTS
  Verdict
CHECK_DEADLOCK FALSE
