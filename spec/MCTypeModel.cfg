SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Walk = FALSE
INVARIANTS Emit CopyIsEqual MoveKeeps Closed OneOwner Stripping
CHECK_DEADLOCK FALSE
