CONSTANTS
  TT <- TTd
  GS <- GSd
SPECIFICATION TSpec
INVARIANTS
  InStream
  Verdict
CHECK_DEADLOCK FALSE
