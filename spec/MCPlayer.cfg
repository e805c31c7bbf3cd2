CONSTANTS Lasts = {0, 1, 2, 6, 11}
 Times = {1, 700, 2500, 4999, 5000}
 MaxLen = 6
SPECIFICATION Spec
VIEW View
INVARIANTS ShownIsNamed Within TimeWithin RunningOnTime Escape
PROPERTIES Ends Forwards
CHECK_DEADLOCK FALSE
