SPECIFICATION Spec
CONSTANT Upto = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
