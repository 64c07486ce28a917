SPECIFICATION Spec
INVARIANTS Solves Moves NoSelfForce
CHECK_DEADLOCK FALSE
