SPECIFICATION TSpec
CONSTANTS
  Names = {"a", "b"}
CONSTRAINT Reached
INVARIANTS CrashSafe RoundTrip IndexSane
POSTCONDITION Report
CHECK_DEADLOCK FALSE
