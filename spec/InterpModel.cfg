SPECIFICATION Spec
INVARIANTS Exact Nodes CubicExact Errs Near5
