SPECIFICATION Spec
INVARIANTS RootRight Complete Sound
CHECK_DEADLOCK FALSE
