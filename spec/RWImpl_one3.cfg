SPECIFICATION Spec
CONSTANTS
  N = 1
  p1 = p1
  p2 = p2
  p3 = p3
  NONE = NONE
  Procs = {p1, p2, p3}
  Design = "one"
  Ops = {"Claim", "Update", "ClaimDyn", "GetAll", "Release"}
SYMMETRY Perms
INVARIANTS Linearizable Settled LocksOK NoRace
