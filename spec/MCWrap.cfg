CONSTANTS MaxB = 4
 MaxN = 6
SPECIFICATION Spec
INVARIANTS Inside Enters Periodic Nearer Kept Same
CHECK_DEADLOCK FALSE
