SPECIFICATION TSpec
CONSTANTS
  Fns <- TFns
  Meta <- TMetaRec
  StartLoaded <- TStart
  Cap <- TCap
  Prop = "@PROP@"
INVARIANTS TypeOK FifoCoversExpectations UnloadedIsEmpty
POSTCONDITION Report
CHECK_DEADLOCK FALSE
