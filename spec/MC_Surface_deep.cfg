SPECIFICATION Spec
INVARIANT Safety
INVARIANT Done
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 5
  Depth = {0, 1000, 1500, 2000, 3000, 4500}
  Downs = {0, 1000, 1500}
  Bugs = {"none"}
  PrintReq = FALSE
