SPECIFICATION MSpec
INVARIANT Emit
INVARIANT Reflexive
INVARIANT Symmetric
INVARIANT OnlyZeroes
