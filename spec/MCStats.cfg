CONSTANTS Total <- MCTotal
 Nothing <- MCNothing
 MaxV = 2
 MaxLen = 4
 Lists = {{"P"}, {"P", "L", "V"}, {"E", "L"}, {}}
SPECIFICATION Spec
INVARIANTS Reference Present
PROPERTIES Steady Untouched NoHarm
CHECK_DEADLOCK FALSE
