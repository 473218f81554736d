SPECIFICATION Spec
INVARIANTS LastWins
PROPERTY OnlyNamed
CHECK_DEADLOCK FALSE
