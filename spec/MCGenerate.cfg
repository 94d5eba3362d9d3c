SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Headers = {"v1", "v2"}
  BrokenHs = {"b1", "b2"}
  Options <- MOptions
  Emit = TRUE
INVARIANTS ZeroMeansMocks FailureSpeaks Succeeds EmitStart EmitRefused
PROPERTY HeaderUntouched
