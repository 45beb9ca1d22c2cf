SPECIFICATION Spec
CONSTANTS NCells = 3 NAreas = 2 Depths = {1, 2, 3} PrintReq = TRUE
 Bugs = {"none"}
INVARIANT Safe
CHECK_DEADLOCK FALSE
