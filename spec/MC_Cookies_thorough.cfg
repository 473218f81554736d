SPECIFICATION Spec
CONSTANTS
  Letters = {59, 32, 61, 97, 9, 98}
  MaxLen = 7
INVARIANT CookieLaws
CHECK_DEADLOCK FALSE
