SPECIFICATION Spec
CONSTANTS
  Ports = {p1}
  Servers = {s1, s2}
  Backlog = 2
  MaxOld = 1
CONSTRAINT Bounded
INVARIANTS OneOwner CallbackMeansListening CallbackOnce FailureIsSilent
PROPERTIES RestartPossible EveryStartSettles NobodyTurnedAway
CHECK_DEADLOCK FALSE
