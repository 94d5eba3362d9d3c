SPECIFICATION MCSpec
CONSTANTS
  MaxEvents = 2
  Emit = TRUE
INVARIANT EmitAll
INVARIANT OnePass
INVARIANT Monotone
INVARIANT OrderFree
