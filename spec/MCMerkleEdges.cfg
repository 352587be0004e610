SPECIFICATION Spec
INVARIANTS RootRight Complete Sound
ACTION_CONSTRAINT Edges
CHECK_DEADLOCK FALSE
