SPECIFICATION Spec
CONSTANT K = 3
INVARIANT Laws
CHECK_DEADLOCK FALSE
