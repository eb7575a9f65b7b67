CONSTANTS
  VS <- VSd
  LS <- LSd
  DS <- DSd
  MaxG <- MGd
SPECIFICATION TSpec
INVARIANTS
  Verdict
CHECK_DEADLOCK FALSE
