SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxItems = 1
  Depths = {3000}
  Stepdowns = {0, 700, 1000, 5000}
  Bugs = {"single","nolast","overlast","upwards","narrow","wide","notabs","fewer","more","shifted","nowrap","oneedge","abovetabs","finaltabs","open","lowtabs","reversed","dropped","otherside","closer","perlayer"}
  PrintReq = FALSE
