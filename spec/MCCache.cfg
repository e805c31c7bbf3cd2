CONSTANT Rates = {0, 1, 2, 3, 5}
CONSTANT Steps = {0, 1, 2, 3, 4, 5, 6, 7, 10}
CONSTANT MaxLen = 5
SPECIFICATION Spec
INVARIANT Current
INVARIANT Renewed
INVARIANT Always
CHECK_DEADLOCK FALSE
