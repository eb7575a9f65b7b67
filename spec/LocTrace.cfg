CONSTANTS
  BW <- BWd
  FS <- FSd
SPECIFICATION TSpec
INVARIANTS
  Verdict
CHECK_DEADLOCK FALSE
