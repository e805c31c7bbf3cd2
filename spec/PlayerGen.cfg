CONSTANTS Lasts = {0, 6}
 Times = {900, 2500}
 MaxLen = 4
SPECIFICATION GSpec
CONSTRAINT GPrint
CHECK_DEADLOCK FALSE
