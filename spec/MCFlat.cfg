CONSTANTS
  TT <- TTd
SPECIFICATION Spec
INVARIANTS
  Interleaved
  Conserved
  Agree
  Emit
CHECK_DEADLOCK FALSE
