CONSTANTS Primes = {32749}
Orders = {1}
MaxLen = 7
Sequences_ <- GenSeqs
Queries = TRUE
Emitting = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
