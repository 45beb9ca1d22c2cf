SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  W = 3
  K = 3
  Bugs = {"bridge","skiprow","wide","uneven","onepiece","norestart","shortcut","twice","overrun"}
  PrintHist = FALSE
  Fill = TRUE
