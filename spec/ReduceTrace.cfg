SPECIFICATION SpecR
CHECK_DEADLOCK FALSE
