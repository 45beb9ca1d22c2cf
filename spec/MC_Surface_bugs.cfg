SPECIFICATION Spec
INVARIANT Safety
INVARIANT Done
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Depth = {0, 1000, 1500, 2000, 4500}
  Downs = {0, 1000, 1500}
  Bugs = {"skipfirst","nofinal","bigstep","upwards","bridge","gouge","lowtravel","early"}
  PrintReq = FALSE
