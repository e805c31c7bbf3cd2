SPECIFICATION Live
CONSTANTS
  T0s <- SmallT0
  TMaxs <- LiveTM
  Intervals = {0, 1, 20, 45}
  Emitting = FALSE
PROPERTY Terminates
CHECK_DEADLOCK FALSE
