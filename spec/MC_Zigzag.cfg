SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  W = 2
  K = 4
  Bugs = {"none"}
  PrintHist = TRUE
  Fill = FALSE
