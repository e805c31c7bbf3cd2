CONSTANTS MaxB = 4
 MaxN = 0
SPECIFICATION Spec
CONSTRAINT GPrint
CHECK_DEADLOCK FALSE
