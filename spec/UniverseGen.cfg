CONSTANTS Counts = {0, 1, 65}
 Sides = {40, 6400}
 MaxLen = 3
SPECIFICATION Spec
CONSTRAINT GPrint
CHECK_DEADLOCK FALSE
