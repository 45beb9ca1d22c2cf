SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 1
  Bugs = {"none"}
  PrintReq = TRUE
