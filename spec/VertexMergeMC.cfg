SPECIFICATION MCSpec
CONSTANTS
  TP = {1, 2, 3}
  NP = {1, 2}
  D = 12
  Emit = FALSE
INVARIANTS TypeOK NoDangling EdgesLive OwnedIffAlive
VIEW View
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
