SPECIFICATION Spec
INVARIANT Clock
INVARIANT Forward
INVARIANT Fields
INVARIANT Numbers
INVARIANT Ordered
INVARIANT EndMeasured
INVARIANT Saved
INVARIANT Reached
INVARIANT AllListed
INVARIANT Same
CHECK_DEADLOCK FALSE
