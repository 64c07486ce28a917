SPECIFICATION Spec
CONSTANT Partial = FALSE
INVARIANTS Consistent SeenOnce
CHECK_DEADLOCK FALSE
