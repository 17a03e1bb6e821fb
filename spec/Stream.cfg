SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxOps = 3
INVARIANT Delivered
INVARIANT Counted
INVARIANT Surfaced
INVARIANT Complete
