SPECIFICATION MCSpec
CONSTANTS
  Forms = {"plain", "macro", "parameters", "arguments"}
  MaxDecls = 2
  MaxAttrs = 2
INVARIANTS Law LawAdd EmitAll
CHECK_DEADLOCK FALSE
