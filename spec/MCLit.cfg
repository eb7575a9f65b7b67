CONSTANTS
  FS <- FSd
SPECIFICATION Spec
INVARIANTS
  Covered
  Ordered
  Sane
  Emit
CHECK_DEADLOCK FALSE
