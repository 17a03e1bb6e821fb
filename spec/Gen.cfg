SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT RoundTrip
INVARIANT Accepts
INVARIANT Truncated
INVARIANT Framed
INVARIANT Overwrites
INVARIANT Bounded
INVARIANT Ascending
INVARIANT Canonical
