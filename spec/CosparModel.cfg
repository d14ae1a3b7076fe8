SPECIFICATION Spec
INVARIANTS Right SameFile Told Turning
CHECK_DEADLOCK FALSE
