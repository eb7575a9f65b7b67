CONSTANTS
  Leaf <- Lf
  Opts <- Op
SPECIFICATION Spec
INVARIANTS
  Agree
  Balanced
  Emit
CHECK_DEADLOCK FALSE
