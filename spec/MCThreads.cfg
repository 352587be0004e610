SPECIFICATION Spec
VIEW View
INVARIANTS Reads Canonical Answered
PROPERTY Kept
CHECK_DEADLOCK FALSE
