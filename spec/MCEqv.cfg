CONSTANTS
  TS <- TSd
SPECIFICATION Spec
INVARIANTS
  Laws
  Kept
  Emit
CHECK_DEADLOCK FALSE
