SPECIFICATION GenSpec
CONSTANTS
  Dumps = {20, 40, 10, 60, 45, 30}
  Boxes = {1}
  Ends = {1}
  MaxLives = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
