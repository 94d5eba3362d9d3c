SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  Emit = FALSE
  Alphabet = {"-i", "-o", "--cwd", "--mock-only", "--generate-attribute", "--generate-types", "--help", "-D", "f.h", "d", "x"}
INVARIANTS EmitVec HelpWins NoSilence CompleteOnlyIfSound Exact FlagsAnywhere OutcomeTotal ErrorsNameSomething
