SPECIFICATION Spec
INVARIANTS Rigid Inverse Composes Agree Still Near Sizes HorizonBack OffsetBack
CHECK_DEADLOCK FALSE
