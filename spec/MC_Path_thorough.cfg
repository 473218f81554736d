SPECIFICATION Spec
CONSTANTS
  Letters = {46, 47, 58, 97, 98}
  MaxLen = 8
INVARIANT PathLaws
CHECK_DEADLOCK FALSE
