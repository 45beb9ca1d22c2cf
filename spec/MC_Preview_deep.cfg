SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 5
  Bugs = {"none"}
  PrintReq = FALSE
