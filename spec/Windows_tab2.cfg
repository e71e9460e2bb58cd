SPECIFICATION Spec
CONSTANTS
  Kind = "table"
  N = 2
  Univ = "none"
  L = 3
CHECK_DEADLOCK FALSE
