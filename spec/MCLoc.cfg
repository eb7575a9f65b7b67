CONSTANTS
  BW <- BWd
  FS <- FSd
SPECIFICATION Spec
INVARIANTS
  Positions
  Emit
CHECK_DEADLOCK FALSE
