SPECIFICATION Spec
INVARIANTS ReadBack OneKind SamePlace Figures
CHECK_DEADLOCK FALSE
