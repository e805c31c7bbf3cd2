SPECIFICATION Spec
CONSTANTS
  MaxLines = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
