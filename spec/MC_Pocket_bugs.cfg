SPECIFICATION Spec
CONSTANTS NCells = 3 NAreas = 2 Depths = {1, 3} PrintReq = FALSE
 Bugs = {"avoiddeep", "avoidstrict", "noavoid", "suboverlap", "nostart", "skiplast", "onepart", "deepfirst"}
INVARIANT Safe
CHECK_DEADLOCK FALSE
