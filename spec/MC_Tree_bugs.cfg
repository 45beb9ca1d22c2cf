SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  MaxKids = 2
  Bugs = {"lockedoffer","parentoffer","firstonly","shortest","anyorder","again","outin","noroot","dropshort"}
  PrintHist = FALSE
