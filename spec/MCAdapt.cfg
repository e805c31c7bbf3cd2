SPECIFICATION Spec
CONSTANTS
  Configs <- Small
  Emitting = FALSE
INVARIANTS Tiles OnlyGood
CHECK_DEADLOCK FALSE
