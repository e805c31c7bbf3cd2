SPECIFICATION TSpec
CONSTRAINT Reached
INVARIANTS OnSchedule StopsInTime NothingMissed FirstFrame
POSTCONDITION Report
CHECK_DEADLOCK FALSE
