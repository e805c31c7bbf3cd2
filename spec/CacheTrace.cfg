CONSTANT Rates = {0}
CONSTANT Steps = {0}
CONSTANT MaxLen = 1
SPECIFICATION TSpec
CONSTRAINT Reached
POSTCONDITION Report
CHECK_DEADLOCK FALSE
