SPECIFICATION Spec
INVARIANTS KeepsMean Within OnePartOnly Equivariant Held Lossless
CHECK_DEADLOCK FALSE
