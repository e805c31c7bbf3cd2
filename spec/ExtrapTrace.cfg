CONSTANT Primes = {32749, 32719}
SPECIFICATION TSpec
CONSTRAINT Reached
POSTCONDITION Report
CHECK_DEADLOCK FALSE
