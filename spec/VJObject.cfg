SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT EncodeOK
INVARIANT RoundTripOK
INVARIANT ZeroOK
INVARIANT AcceptOK
INVARIANT AgainOK
PROPERTY RefusedOK
CHECK_DEADLOCK FALSE
