SPECIFICATION GSpec
CONSTANTS
  Names = {"a", "b"}
  K = 14
  WithCrash = TRUE
INVARIANTS Emit CrashSafe RoundTrip IndexSane
CHECK_DEADLOCK FALSE
