SPECIFICATION Spec
VIEW View
INVARIANT Refines
INVARIANT Exact
INVARIANT SearchExact
CHECK_DEADLOCK FALSE
