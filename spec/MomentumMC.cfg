SPECIFICATION Spec
INVARIANTS ThereAndBack Parseval Plane FreeWave Equation
CHECK_DEADLOCK FALSE
