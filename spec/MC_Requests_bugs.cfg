SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 0
  Bugs = {"nodiameter","jobdiameter","wirediameter","zerooffset","nooffsets","firstshape","skipshape","noavoid","firstavoid","above","tilted","level","levelavoid","notargets","nodepth","equaltabs","notabs","edgetabs","nosteps","onemore","oneless","drilldiameter","empty","swallow","half"}
  PrintReq = FALSE
