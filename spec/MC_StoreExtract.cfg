SPECIFICATION Spec
VIEW View
INVARIANT Refines
INVARIANT Exact
INVARIANT PartialExtractExact
CHECK_DEADLOCK FALSE
