SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  W = 2
  K = 4
  Bugs = {"unsorted","lastnone","nonone","usedend","passes","chord","shortwalk","stopsearly","keepsend"}
  PrintHist = FALSE
  Fill = FALSE
