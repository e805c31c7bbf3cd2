CONSTANT UsableDevices = {"0:0", "0:0,0"}
SPECIFICATION TSpec
CONSTRAINT Reached
POSTCONDITION Report
CHECK_DEADLOCK FALSE
