SPECIFICATION MCSpec
CONSTANTS
  Fns <- MCFns
  Meta <- MCMeta
  StartLoaded <- MCStart
  Cap = 2
  MaxOps = 4
  Emit = FALSE
  Alphabet <- FullAlphabet
INVARIANTS TypeOK FifoCoversExpectations UnloadedIsEmpty
  C01_Verdict C02_ReturnQueue C03_Unexpected C04_Matchers C05_Order C06_InitResets
  C07_Registration C08_Errors C09_Outputs C10_Capacity C12_Object
CHECK_DEADLOCK FALSE
