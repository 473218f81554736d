SPECIFICATION Spec
CONSTANTS
  Letters = {38, 61, 91, 93, 97, 98}
  MaxLen = 5
INVARIANT XQueryLaws
CHECK_DEADLOCK FALSE
