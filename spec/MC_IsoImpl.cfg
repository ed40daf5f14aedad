SPECIFICATION Spec
INVARIANTS Decides Greedy
CHECK_DEADLOCK FALSE
