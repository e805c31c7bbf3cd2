CONSTANTS Kind = "loop"
 T = 3
 Depth = 3
 Coarse = FALSE
 Waits = TRUE
SPECIFICATION Spec
INVARIANTS OmpSound NoRace Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
