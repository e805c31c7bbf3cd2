SPECIFICATION Spec
CONSTANT Upto = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
