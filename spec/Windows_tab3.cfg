SPECIFICATION Spec
CONSTANTS
  Kind = "table"
  N = 3
  Univ = "none"
  L = 2
CHECK_DEADLOCK FALSE
