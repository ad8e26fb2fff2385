SPECIFICATION Spec
INVARIANT IExclusive
INVARIANT IReleased
PROPERTY Kept
CHECK_DEADLOCK FALSE
