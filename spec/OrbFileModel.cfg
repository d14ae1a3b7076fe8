SPECIFICATION Spec
INVARIANTS ReadLaw DayLaw
CHECK_DEADLOCK FALSE
