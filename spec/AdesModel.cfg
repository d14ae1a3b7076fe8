SPECIFICATION Spec
INVARIANTS Bounds Errors OneRecord NoSectionLeft
