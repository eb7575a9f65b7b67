CONSTANTS
  TT <- TTd
  LS <- LSd
  FS <- FSd
SPECIFICATION TSpec
INVARIANTS
  Verdict
CHECK_DEADLOCK FALSE
