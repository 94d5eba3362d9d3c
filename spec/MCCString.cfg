SPECIFICATION MCSpec
CONSTANTS
  Slots = {1, 2}
  Inner = 256
  Lens = {0, 1, 255, 256}
  Chars = {97, 98}
  MaxOps = 3
  Emit = TRUE
INVARIANT EmitAll
INVARIANT InBounds
INVARIANT UsedIsSize
INVARIANT HeapWhenNeeded
INVARIANT Antisym
INVARIANT EqualIsSame
INVARIANT NoHeapWhenFreed
