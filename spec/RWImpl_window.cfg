SPECIFICATION Spec
CONSTANTS
  N = 2
  p1 = p1
  p2 = p2
  p3 = p3
  NONE = NONE
  Procs = {p1, p2}
  Design = "window"
  Ops = {"ClaimDyn", "Release"}
SYMMETRY Perms
INVARIANTS Linearizable Settled LocksOK NoRace
