SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  Bugs = {"nolocation","onelocation","locatedtwice","world","unturned","notmoved","inverse","worldz","upside","heightless","worldside","worldtilt","worldlevel","worldorder","worlddedupe","worldfeed"}
  PrintReq = FALSE
