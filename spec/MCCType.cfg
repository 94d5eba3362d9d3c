SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS CanonIdempotent CanonHasNoTypedef ConstIdempotent SameSignature OutOnlyThroughPointers Counts Emit
CHECK_DEADLOCK FALSE
