SPECIFICATION Spec
INVARIANTS AreasRight StripRight VarsRight
CHECK_DEADLOCK FALSE
