SPECIFICATION Spec
INVARIANTS Emit LastWins
PROPERTY OnlyNamed
CHECK_DEADLOCK FALSE
