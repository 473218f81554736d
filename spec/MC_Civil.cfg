SPECIFICATION Spec
CONSTANTS
  First = 0
  Final = 150000
  Step = 500
INVARIANTS Agree Form
CHECK_DEADLOCK FALSE
