SPECIFICATION Spec
CONSTANTS
  MaxLines = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
