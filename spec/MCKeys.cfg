SPECIFICATION Spec
INVARIANTS OnlyWhole
CHECK_DEADLOCK FALSE
