SPECIFICATION Spec
CONSTANT Leaky = TRUE
INVARIANT Deterministic
PROPERTY OnlyOwn
PROPERTY SourcesKept
CHECK_DEADLOCK FALSE
