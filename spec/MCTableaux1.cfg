SPECIFICATION Spec
CONSTANTS
  P = 46337
  Root15 = 16156
INVARIANT OrderConditions
CHECK_DEADLOCK FALSE
