CONSTANTS Parts = {"none", "given", "late"}
Own = 2
PartOwn = 3
Scratch = 2
MaxCalls = 4
Rounds = 3
Emitting = FALSE
SPECIFICATION Spec
INVARIANTS Held NothingLeft Bounded NeverStuck OnlyWithEngine
CHECK_DEADLOCK FALSE
