CONSTANTS Primes = {32749}
Orders = {1, 2}
MaxLen = 12
Sequences_ <- DeepSeqs
Queries = TRUE
Emitting = FALSE
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
