SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitTransition
INVARIANT Refines
INVARIANT Exact
CHECK_DEADLOCK FALSE
