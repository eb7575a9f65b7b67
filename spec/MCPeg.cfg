CONSTANTS
  TT <- TTd
  GS <- GSd
SPECIFICATION Spec
INVARIANTS
  Refines
  RoundTrip
  ErrLocated
  ForkIntact
  InStream
  Emit
CHECK_DEADLOCK FALSE
