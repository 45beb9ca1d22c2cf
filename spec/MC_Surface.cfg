SPECIFICATION Spec
INVARIANT Safety
INVARIANT Done
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Depth = {0, 1000, 1500, 2000, 4500}
  Downs = {0, 1000, 1500}
  Bugs = {"none"}
  PrintReq = TRUE
