CONSTANTS
  TS <- TSd
SPECIFICATION TSpec
INVARIANTS
  Verdict
CHECK_DEADLOCK FALSE
