SPECIFICATION Spec
VIEW View
INVARIANTS Canonical MapLike Refusals OldRoot Complete Sound Bound
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
