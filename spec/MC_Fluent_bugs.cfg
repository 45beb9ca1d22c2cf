SPECIFICATION Spec
INVARIANT Safe
INVARIANT Own
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Bugs = {"counter","tabstate","cache","sharelist","shareupdate","sharechange","drops","forgetfeed","inplace","inplacesame","inplacerefused","listrefused"}
  PrintHist = FALSE
