CONSTANTS Counts = {0, 1, 63, 64, 65, 128}
 Sides = {1, 63, 64, 100, 6400}
 MaxLen = 3
SPECIFICATION Spec
VIEW View
INVARIANTS WholeBlocks Enough BoxHolds Function Apart
CHECK_DEADLOCK FALSE
