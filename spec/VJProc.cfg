SPECIFICATION Spec
CONSTANT Leaky = FALSE
INVARIANT Deterministic
PROPERTY OnlyOwn
PROPERTY SourcesKept
CHECK_DEADLOCK FALSE
