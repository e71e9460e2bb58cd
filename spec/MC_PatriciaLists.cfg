SPECIFICATION Spec
CONSTANTS
  W = 1
  MaxLen = 2
  Toks = 2
  Fns = {"eq", "all"}
VIEW View
INVARIANTS Sound Ordered
PROPERTIES Refines
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
