SPECIFICATION MCSpec
CONSTANTS
  Names = {"a", "b"}
  MaxFrames = 4
  MaxRefuse = 2
  MaxOpen = 3
INVARIANTS NothingSwallowed AckedReadable
CHECK_DEADLOCK FALSE
