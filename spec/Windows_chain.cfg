SPECIFICATION Spec
CONSTANTS
  Kind = "tree"
  N = 3
  Univ = "chain"
  L = 2
CHECK_DEADLOCK FALSE
