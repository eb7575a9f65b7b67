CONSTANTS
  FS <- FSd
SPECIFICATION Spec
INVARIANTS
  TypeKept
  Kept
  Exhausts
  Emit
CHECK_DEADLOCK FALSE
