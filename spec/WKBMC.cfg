SPECIFICATION Spec
INVARIANTS Composes Wronskian FreeWave Follows
CHECK_DEADLOCK FALSE
