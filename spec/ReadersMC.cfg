SPECIFICATION Spec
CONSTANTS
  Procs <- TwoProcs
  Content <- Four
  Refs <- Their
INVARIANTS Frozen Words Alone
CHECK_DEADLOCK FALSE
