SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT NothingStuck
INVARIANT NeverAhead
INVARIANT InBuffer
INVARIANT NeverGone
INVARIANT Told
