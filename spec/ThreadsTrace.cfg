SPECIFICATION TSpec
INVARIANT OmpSound
CONSTRAINT Reached
POSTCONDITION Report
CHECK_DEADLOCK FALSE
