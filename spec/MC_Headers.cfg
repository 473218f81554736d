SPECIFICATION Spec
CONSTANTS
  Letters = {32, 9, 1, 58, 97, 65, 44}
  MaxLen = 4
INVARIANT HeaderLaws
CHECK_DEADLOCK FALSE
