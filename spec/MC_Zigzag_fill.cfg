SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  W = 3
  K = 3
  Bugs = {"none"}
  PrintHist = TRUE
  Fill = TRUE
