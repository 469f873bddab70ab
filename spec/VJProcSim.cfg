SPECIFICATION Spec
CONSTANT Leaky = FALSE
INVARIANT Deterministic
CHECK_DEADLOCK FALSE
