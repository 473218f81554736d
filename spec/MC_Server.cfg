SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2, 3}
  Workers = 1
  AcceptFaults = 1
INVARIANTS OwnAnswer StaysUp
PROPERTIES Served TaskEnds
CHECK_DEADLOCK FALSE
