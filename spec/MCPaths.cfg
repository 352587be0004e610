SPECIFICATION Spec
INVARIANTS Right Codes Relations
CHECK_DEADLOCK FALSE
