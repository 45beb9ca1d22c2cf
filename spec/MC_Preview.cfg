SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Bugs = {"none"}
  PrintReq = TRUE
