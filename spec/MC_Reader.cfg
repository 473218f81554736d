SPECIFICATION Spec
CONSTANTS
  Chunk = 5
  Which = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
INVARIANT Verdict
PROPERTIES Settled Answered
CHECK_DEADLOCK FALSE
