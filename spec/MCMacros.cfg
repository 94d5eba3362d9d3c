SPECIFICATION Spec
CONSTANTS
  Names = {"A", "B"}
  Defs = {"1", "2"}
  Depth = 2
INVARIANTS Consistent TypeOk LastWins OnlyTouched Emit
CHECK_DEADLOCK FALSE
