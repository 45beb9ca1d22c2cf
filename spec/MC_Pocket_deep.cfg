SPECIFICATION Spec
CONSTANTS NCells = 4 NAreas = 3 Depths = {1, 2} PrintReq = FALSE
 Bugs = {"none"}
INVARIANT Safe
CHECK_DEADLOCK FALSE
