SPECIFICATION Spec
INVARIANTS Exact Whole
PROPERTY Apart
CHECK_DEADLOCK FALSE
