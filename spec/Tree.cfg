CONSTANT MaxN = 6
SPECIFICATION Spec
INVARIANT Once
INVARIANT Complete
INVARIANT Bounded
INVARIANT Shaped
PROPERTY Terminates
CHECK_DEADLOCK FALSE
