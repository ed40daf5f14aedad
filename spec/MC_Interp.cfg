SPECIFICATION Spec
INVARIANTS Partition RoundTrip Fresh
CHECK_DEADLOCK FALSE
