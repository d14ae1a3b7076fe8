SPECIFICATION Spec
INVARIANTS Agree Shapes
CONSTANTS
 Years <- YearsQ
