SPECIFICATION Spec
CONSTANTS MaxLen = 12
          Emitting = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
