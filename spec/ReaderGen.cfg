SPECIFICATION GSpec
CONSTANTS
  Streams <- DStreams
  Dests <- DDests
  K = 24
INVARIANTS Emit TypeOK
CHECK_DEADLOCK FALSE
