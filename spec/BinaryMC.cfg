SPECIFICATION Spec
VIEW view
INVARIANT Invariant
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
