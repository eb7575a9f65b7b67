CONSTANTS
  TT <- TTd
  GS <- GSd
  QS <- QSd
SPECIFICATION Spec
INVARIANTS
  SameAsText
  KeepsPlaces
  ErrInside
  Emit
CHECK_DEADLOCK FALSE
