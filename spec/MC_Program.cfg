SPECIFICATION Spec
CONSTANTS N = 2
WithBugs = FALSE
PrintHist = TRUE
INVARIANTS Clean Tracks
CHECK_DEADLOCK FALSE
