CONSTANTS Kind = "levels"
 T = 4
 Depth = 4
 Coarse = FALSE
 Waits = TRUE
SPECIFICATION Spec
INVARIANTS OmpSound NoRace Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
