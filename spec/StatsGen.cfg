CONSTANTS Total <- MCTotal
 Nothing <- MCNothing
 MaxV = 1
 MaxLen = 5
 Lists = {{"P", "L", "V", "E"}, {"E", "L"}, {"V"}, {}}
SPECIFICATION Spec
CONSTRAINT GPrint
CHECK_DEADLOCK FALSE
