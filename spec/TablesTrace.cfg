CONSTANTS Zero = 1
 Bad = 9001
 Mark = 9002
 Missing = 9003
SPECIFICATION TSpec
CONSTRAINT Reached
POSTCONDITION Report
CHECK_DEADLOCK FALSE
