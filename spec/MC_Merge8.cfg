SPECIFICATION Spec
CONSTANTS
  L = 8
  K = 3
INVARIANT PassExact NormalExact EmitState
CHECK_DEADLOCK FALSE
