SPECIFICATION Spec

INVARIANTS Parseval EveryMode Translation OwnShell Smooth
CHECK_DEADLOCK FALSE
