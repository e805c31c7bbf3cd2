CONSTANTS MaxB = 8
 MaxN = 9
SPECIFICATION Spec
INVARIANTS Inside Enters Periodic Nearer Kept Same
CHECK_DEADLOCK FALSE
