CONSTANTS
  FS <- FSd
SPECIFICATION Spec
INVARIANTS
  WellFormed
  Emit
PROPERTIES
  NeverShrinks
CHECK_DEADLOCK FALSE
