CONSTANT MaxN = 1
CONSTANT MaxB = 1
CONSTANT Threads = {1}
SPECIFICATION TSpec
CONSTRAINT Reached
POSTCONDITION Report
CHECK_DEADLOCK FALSE
