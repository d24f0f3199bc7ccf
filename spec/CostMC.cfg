SPECIFICATION Spec
INVARIANT Rooms
CHECK_DEADLOCK FALSE
