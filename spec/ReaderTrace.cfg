SPECIFICATION TSpec
CONSTANTS
  Streams <- DStreams
  Dests <- DDests
CONSTRAINT Reached
INVARIANT TypeOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
