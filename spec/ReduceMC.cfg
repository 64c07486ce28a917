SPECIFICATION Spec
INVARIANTS KeepsPoints Within MeanKept Back FilterMean Equivariant Apart
CHECK_DEADLOCK FALSE
