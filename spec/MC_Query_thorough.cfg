SPECIFICATION Spec
CONSTANTS
  Letters = {38, 61, 37, 97, 54, 49, 98, 67}
  MaxLen = 6
INVARIANT QueryLaws
CHECK_DEADLOCK FALSE
