CONSTANTS Counts = {0, 1, 63, 64, 65, 127, 128, 129, 1000}
 Sides = {1, 63, 64, 100, 6400}
 MaxLen = 5
SPECIFICATION Spec
VIEW View
INVARIANTS WholeBlocks Enough BoxHolds Function Apart
CHECK_DEADLOCK FALSE
