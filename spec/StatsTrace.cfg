SPECIFICATION TSpec
CONSTRAINT Reached
POSTCONDITION Report
CHECK_DEADLOCK FALSE
