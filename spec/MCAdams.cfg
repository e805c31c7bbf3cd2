CONSTANT MaxSteps = 14
SPECIFICATION Spec
INVARIANTS Ages Length
CHECK_DEADLOCK FALSE
