SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  MaxKids = 2
  Bugs = {"none"}
  PrintHist = TRUE
