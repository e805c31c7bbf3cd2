CONSTANTS Kind = "tree"
 T = 2
 Depth = 3
 Coarse = TRUE
 Waits = TRUE
SPECIFICATION Spec
INVARIANTS OmpSound Result GPrint
CHECK_DEADLOCK FALSE
