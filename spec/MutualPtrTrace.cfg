SPECIFICATION TSpec
CONSTANTS
  SA = {1, 2, 3, 4, 5}
  SB = {11, 12, 13, 14}
INVARIANTS Symmetric NoDangling
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
