SPECIFICATION Spec
CONSTANTS Lz = 2  K = 3
INVARIANTS Closed Turned
CHECK_DEADLOCK FALSE
