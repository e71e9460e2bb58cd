SPECIFICATION Spec
CONSTANTS
  N = 3
  NVals = 2
VIEW View
INVARIANTS TypeOK Answered
PROPERTIES T01_Exclusive T01_Iff T02_Frame T02_Release T03_Lowest T04_AllOrNothing T05_Count SearchAgrees T11_Refused ReadsPure
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
