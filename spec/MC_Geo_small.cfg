SPECIFICATION Spec
CONSTANT K = 2
INVARIANT Laws
CHECK_DEADLOCK FALSE
