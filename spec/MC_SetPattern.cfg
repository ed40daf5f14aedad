SPECIFICATION Spec
ACTION_CONSTRAINT Emit
INVARIANT Canonical
INVARIANT LastBound
CHECK_DEADLOCK FALSE
