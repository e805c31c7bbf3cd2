SPECIFICATION MCSpec
CONSTANTS
  T0s <- SmallT0
  TMaxs <- SmallTM
  Intervals = {0, 1, 15, 20, 21, 30, 45, 63}
  Emitting = FALSE
INVARIANTS OnSchedule StopsInTime NothingMissed FirstFrame
CHECK_DEADLOCK FALSE
