SPECIFICATION Spec
CONSTANTS N = 3
WithBugs = FALSE
PrintHist = TRUE
INVARIANTS Clean Tracks
CHECK_DEADLOCK FALSE
