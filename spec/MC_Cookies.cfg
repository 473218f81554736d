SPECIFICATION Spec
CONSTANTS
  Letters = {59, 32, 61, 97, 9}
  MaxLen = 6
INVARIANT CookieLaws
CHECK_DEADLOCK FALSE
