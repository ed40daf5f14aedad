SPECIFICATION Spec
INVARIANTS Contract AllDistinct
CHECK_DEADLOCK FALSE
