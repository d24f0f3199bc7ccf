SPECIFICATION Spec
VIEW view
INVARIANT Invariants
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
