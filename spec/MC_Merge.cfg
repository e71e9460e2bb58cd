SPECIFICATION Spec
CONSTANTS
  L = 6
  K = 2
INVARIANT PassExact NormalExact EmitState
CHECK_DEADLOCK FALSE
