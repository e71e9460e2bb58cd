SPECIFICATION FairSpec
CONSTANTS
  N = 2
  p1 = p1
  p2 = p2
  p3 = p3
  NONE = NONE
  Procs = {p1, p2}
  Design = "two"
  Ops = {"ClaimDyn", "Release", "GetAll"}
PROPERTY Returns
