SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT InRange
INVARIANT Laws
