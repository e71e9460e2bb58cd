SPECIFICATION Spec
CONSTANTS
  Kind = "tree"
  N = 3
  Univ = "range"
  L = 2
CHECK_DEADLOCK FALSE
