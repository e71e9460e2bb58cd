SPECIFICATION Spec
CONSTANTS
  L = 5
  K = 3
INVARIANT PassExact NormalExact EmitState
CHECK_DEADLOCK FALSE
