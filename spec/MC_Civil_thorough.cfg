SPECIFICATION Spec
CONSTANTS
  First = 0
  Final = 2932896
  Step = 500
INVARIANTS Agree Form
CHECK_DEADLOCK FALSE
