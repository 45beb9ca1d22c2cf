SPECIFICATION Spec
INVARIANT Safe
INVARIANT Own
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Bugs = {"none"}
  PrintHist = FALSE
