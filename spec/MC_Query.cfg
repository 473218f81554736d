SPECIFICATION Spec
CONSTANTS
  Letters = {38, 61, 37, 97, 54, 49}
  MaxLen = 5
INVARIANT QueryLaws
CHECK_DEADLOCK FALSE
