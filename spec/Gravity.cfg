CONSTANT MaxN = 5
CONSTANT MaxB = 3
CONSTANT Threads = {1, 2}
SPECIFICATION Spec
INVARIANT InRange
INVARIANT Once
PROPERTY Terminates
CHECK_DEADLOCK FALSE
