SPECIFICATION Spec
CONSTANTS
  W = 2
  MaxLen = 2
  Toks = 1
  Fns = {"never","all"}
VIEW View
INVARIANTS Sound Ordered
PROPERTIES Refines
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
