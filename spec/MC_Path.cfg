SPECIFICATION Spec
CONSTANTS
  Letters = {46, 47, 58, 97}
  MaxLen = 7
INVARIANT PathLaws
CHECK_DEADLOCK FALSE
