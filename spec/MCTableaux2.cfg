SPECIFICATION Spec
CONSTANTS
  P = 46327
  Root15 = 13488
INVARIANT OrderConditions
CHECK_DEADLOCK FALSE
