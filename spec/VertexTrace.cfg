SPECIFICATION TSpec
CONSTANTS
  TP = {1, 2, 3, 4, 5, 6}
  NP = {1, 2, 3, 4}
INVARIANTS TypeOK NoDangling EdgesLive OwnedIffAlive
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
