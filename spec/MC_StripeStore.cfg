INIT Init
NEXT Next
INVARIANTS Sizes Insertions Roles Answers Graphs Order
CHECK_DEADLOCK FALSE
