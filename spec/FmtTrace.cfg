CONSTANTS
  TT <- TTd
  CC <- CCd
  FS <- FSd
SPECIFICATION TSpec
INVARIANTS
  Verdict
CHECK_DEADLOCK FALSE
