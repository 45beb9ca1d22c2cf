SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Bugs = {"none"}
  PrintReq = FALSE
