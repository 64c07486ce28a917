SPECIFICATION Spec
INVARIANTS Restored Meanwhile Sound
PROPERTIES Forward Ends
CHECK_DEADLOCK FALSE
