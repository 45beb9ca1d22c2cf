SPECIFICATION Spec
CONSTANTS N = 2
WithBugs = TRUE
PrintHist = FALSE
INVARIANTS Clean Tracks
CHECK_DEADLOCK FALSE
