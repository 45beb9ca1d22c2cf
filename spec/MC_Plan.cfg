SPECIFICATION Spec
INVARIANTS Accepts Rejects
CHECK_DEADLOCK FALSE
