SPECIFICATION Spec
CONSTANT Dummy = 0
POSTCONDITION Report
CHECK_DEADLOCK FALSE
