SPECIFICATION Spec

INVARIANTS NeverStuck NothingTwice Complete Answers
CHECK_DEADLOCK FALSE
