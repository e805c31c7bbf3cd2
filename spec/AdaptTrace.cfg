SPECIFICATION TSpec
CONSTRAINT Reached
INVARIANTS Tiles OnlyGood
POSTCONDITION Report
CHECK_DEADLOCK FALSE
