SPECIFICATION MCSpec
CONSTANTS
  Streams <- MCStreams
  Dests <- MCDests
INVARIANTS TypeOK
PROPERTIES ReadsInOrder FailuresHarmless
CHECK_DEADLOCK FALSE
