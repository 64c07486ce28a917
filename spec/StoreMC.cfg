SPECIFICATION Spec
CONSTANTS MaxLen = 0
          Emitting = FALSE
INVARIANTS ContentKept LayoutIsPermutation SlicesRight GhostsArePeriodic
CHECK_DEADLOCK FALSE
