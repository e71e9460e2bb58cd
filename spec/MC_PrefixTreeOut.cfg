SPECIFICATION Spec
CONSTANTS
  W = 3
  N = 1
  NVals = 1
  MaxO = 1
VIEW View
INVARIANTS TypeOK Answered
PROPERTIES P01_Frame P04_Uncovered P05_Exact P06_Exact P07_Independent P07_Equal ReadsPure T11_Refused
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
