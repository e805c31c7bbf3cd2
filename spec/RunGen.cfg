SPECIFICATION MCSpec
CONSTANTS
  T0s <- GenT0
  TMaxs <- GenTM
  Intervals = {0, 1, 5, 15, 20, 21, 23, 30, 39, 40, 45, 60, 63, 100}
  Emitting = TRUE
INVARIANTS Emit
CONSTRAINT JustStart
CHECK_DEADLOCK FALSE
