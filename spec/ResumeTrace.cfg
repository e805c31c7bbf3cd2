SPECIFICATION TSpec
CONSTANTS
  Dumps = {1}
  Boxes = {1}
  Ends = {1}
  MaxLives = 1
CONSTRAINT Reached
POSTCONDITION Report
CHECK_DEADLOCK FALSE
