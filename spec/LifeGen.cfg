CONSTANTS Parts = {"none"}
Own = 1
PartOwn = 1
Scratch = 0
MaxCalls = 5
Rounds = 0
Emitting = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
