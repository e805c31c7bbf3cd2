CONSTANTS Primes = {32749}
Orders = {1}
MaxLen = 12
Sequences_ <- LongSeqs
Queries = FALSE
Emitting = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
