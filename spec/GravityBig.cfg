CONSTANT MaxN = 6
CONSTANT MaxB = 4
CONSTANT Threads = {1, 2, 3}
SPECIFICATION Spec
INVARIANT InRange
INVARIANT Once
PROPERTY Terminates
CHECK_DEADLOCK FALSE
