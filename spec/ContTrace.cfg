CONSTANTS
  FS <- FSd
SPECIFICATION TSpec
INVARIANTS
  Safe
  Verdict
CHECK_DEADLOCK FALSE
