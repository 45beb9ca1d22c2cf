SPECIFICATION Spec
INVARIANT Safety
INVARIANT Done
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Grid = {0, 1, 2}
  Bugs = {"none"}
  PrintReq = TRUE
