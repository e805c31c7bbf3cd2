SPECIFICATION Spec
CONSTANTS
  Dumps = {1, 20, 30, 40, 45, 63}
  Boxes = {1, 7}
  Ends = {40, 47, 90, 131, 200}
  MaxLives = 3
INVARIANTS Prefix Complete
CHECK_DEADLOCK FALSE
