SPECIFICATION Spec
INVARIANTS Holds Replaced
CHECK_DEADLOCK FALSE
