SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Bugs = {"inverse","unplaced","unturned","notmoved","chord","otherway","zeroz","stops","norapids","noplunge","once","retract","nofirst","reverse","lastop","late","flatfirst"}
  PrintReq = FALSE
