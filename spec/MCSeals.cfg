SPECIFICATION Spec
INVARIANTS OnlySigned OnlyWhole
CHECK_DEADLOCK FALSE
