SPECIFICATION Spec
INVARIANT Safe
INVARIANT Own
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Bugs = {"none"}
  PrintHist = TRUE
