CONSTANT MaxN = 8
SPECIFICATION Spec
INVARIANT Once
INVARIANT Complete
INVARIANT Bounded
INVARIANT Shaped
CHECK_DEADLOCK FALSE
