SPECIFICATION Spec
VIEW View
INVARIANTS Canonical MapLike Refusals OldRoot Complete Sound Bound
PROPERTY AppendOnly
ACTION_CONSTRAINT Edges
CHECK_DEADLOCK FALSE
