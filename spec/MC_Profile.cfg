SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxItems = 2
  Depths = {1000, 3000}
  Stepdowns = {0, 700, 1000, 5000}
  Bugs = {"none"}
  PrintReq = TRUE
