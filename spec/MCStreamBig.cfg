SPECIFICATION MCSpec
CONSTANTS
  Names = {"a", "b"}
  MaxFrames = 5
  MaxCrash = 2
  MaxOpen = 3
  Limits = {0, 1, 6, 9}
  Sizes = {1, 2}
INVARIANTS CrashSafe RoundTrip IndexSane
PROPERTIES RollOnlyWhenFull AckedOnlyGrows
CHECK_DEADLOCK FALSE
