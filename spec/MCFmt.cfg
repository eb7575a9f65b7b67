CONSTANTS
  TT <- TTd
  CC <- CCd
  FS <- FSd
SPECIFICATION Spec
INVARIANTS
  LayoutExact
  PrefixOnly
  Reusable
  Lossless
  Balanced
  Emit
CHECK_DEADLOCK FALSE
