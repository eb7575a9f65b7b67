CONSTANTS
  FS <- FSd
SPECIFICATION Spec
INVARIANTS
  Emit
CHECK_DEADLOCK FALSE
