SPECIFICATION Spec
INVARIANTS Fits FormatKept ValueKept Again Notations
