SPECIFICATION Spec
INVARIANTS Reads Canonical Answered
ACTION_CONSTRAINT Told_
CHECK_DEADLOCK FALSE
