SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  Bugs = {"none"}
  PrintReq = TRUE
