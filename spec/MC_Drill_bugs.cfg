SPECIFICATION Spec
INVARIANT Safety
INVARIANT Done
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Grid = {0, 1, 2}
  Bugs = {"nolift","farthest","nearorigin","asselected","forget","beside","diagonal","deeprapid","signed","shallow","twice","dropslast"}
  PrintReq = FALSE
