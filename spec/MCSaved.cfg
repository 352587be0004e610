SPECIFICATION Spec
INVARIANTS Restored Real
CHECK_DEADLOCK FALSE
