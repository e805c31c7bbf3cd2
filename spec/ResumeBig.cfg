SPECIFICATION Spec
CONSTANTS
  Dumps = {1, 5, 15, 20, 21, 23, 30, 39, 40, 41, 45, 60, 63, 81}
  Boxes = {1, 7}
  Ends = {20, 40, 47, 60, 90, 131, 160, 200, 260}
  MaxLives = 5
INVARIANTS Prefix Complete
CHECK_DEADLOCK FALSE
