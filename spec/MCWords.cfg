CONSTANTS
  TT <- TTd
  LS <- LSd
  FS <- FSd
SPECIFICATION Spec
INVARIANTS
  Partition
  Emit
CHECK_DEADLOCK FALSE
