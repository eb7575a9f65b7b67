CONSTANTS
  VS <- VSd
  LS <- LSd
  DS <- DSd
  MaxG <- MGd
SPECIFICATION Spec
VIEW Edge
INVARIANTS
  Carries
  Typed
  Emit
CHECK_DEADLOCK FALSE
