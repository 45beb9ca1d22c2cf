SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  W = 4
  K = 4
  Bugs = {"none"}
  PrintHist = FALSE
  Fill = FALSE
