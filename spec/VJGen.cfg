SPECIFICATION Spec
CONSTANT OneTag = FALSE
INVARIANTS Kept Served
CHECK_DEADLOCK FALSE
