CONSTANTS
  Most <- Md
SPECIFICATION Spec
INVARIANTS
  Same
  Level
  Knows
  Nothing
  Moves
  Proper
  Emit
CHECK_DEADLOCK FALSE

