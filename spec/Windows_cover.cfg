SPECIFICATION Spec
CONSTANTS
  Kind = "tree"
  N = 3
  Univ = "cover"
  L = 2
CHECK_DEADLOCK FALSE
