SPECIFICATION Spec
CONSTANTS
  W = 2
  MaxLen = 1
  Toks = 1
  Fns = {"all"}
VIEW View
INVARIANTS Sound Ordered
PROPERTIES Refines
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
