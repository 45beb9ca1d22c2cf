SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 5
  MaxKids = 2
  Bugs = {"none"}
  PrintHist = FALSE
