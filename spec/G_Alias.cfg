SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Letters = {1, 3, 4, 6, 7, 8, 9, 10, 11}
CHECK_DEADLOCK FALSE
