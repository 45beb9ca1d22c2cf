SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  W = 3
  K = 3
  Bugs = {"unsorted","lastnone","nonone","usedend","passes","chord","shortwalk","stopsearly","keepsend"}
  PrintHist = FALSE
  Fill = FALSE
