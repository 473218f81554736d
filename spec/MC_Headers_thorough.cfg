SPECIFICATION Spec
CONSTANTS
  Letters = {32, 9, 1, 58, 97, 65, 44, 127}
  MaxLen = 6
INVARIANT HeaderLaws
CHECK_DEADLOCK FALSE
