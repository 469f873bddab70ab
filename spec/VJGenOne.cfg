SPECIFICATION Spec
CONSTANT OneTag = TRUE
INVARIANTS Kept
CHECK_DEADLOCK FALSE
