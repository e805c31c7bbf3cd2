CONSTANTS Parts = {"none", "given", "late"}
Own = 2
PartOwn = 3
Scratch = 1
MaxCalls = 3
Rounds = 2
Emitting = FALSE
SPECIFICATION Spec
INVARIANTS Held NothingLeft Bounded NeverStuck OnlyWithEngine
CHECK_DEADLOCK FALSE
