SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxOps = 5
INVARIANT Delivered
INVARIANT Counted
INVARIANT Surfaced
INVARIANT Complete
