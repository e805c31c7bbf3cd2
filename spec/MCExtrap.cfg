CONSTANTS Primes = {32749}
Orders = {1, 2, 3}
MaxLen = 8
Sequences_ <- Seqs
Queries = TRUE
Emitting = FALSE
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
