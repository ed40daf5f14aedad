SPECIFICATION Spec
INVARIANTS Agree AgreeRun DotInside
CHECK_DEADLOCK FALSE
