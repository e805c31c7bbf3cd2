SPECIFICATION GenSpec
CONSTANTS
  Configs <- Gen
  Emitting = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
