SPECIFICATION Spec
INVARIANT Decided
INVARIANT Copied
INVARIANT Deep
INVARIANT Equivalence
CHECK_DEADLOCK FALSE
