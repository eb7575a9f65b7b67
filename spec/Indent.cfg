SPECIFICATION Spec
INVARIANTS
  Exact
  Emit
CHECK_DEADLOCK FALSE
