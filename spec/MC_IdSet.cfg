SPECIFICATION Spec
CONSTANTS
  C = 3
  MaxIn = 2
  MaxOut = 2
VIEW View
INVARIANT Algebra
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
