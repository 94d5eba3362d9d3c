SPECIFICATION Spec
CONSTANT MaxMembers = 2
INVARIANTS Laws ArrayLaw Monotone UnionLaw Emit
CHECK_DEADLOCK FALSE
