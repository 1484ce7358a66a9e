SPECIFICATION MCSpec
CONSTANTS
  TP = {1, 2, 3}
  NP = {1, 2}
  D = 7
  Emit = TRUE
INVARIANTS TypeOK NoDangling EdgesLive OwnedIffAlive
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Scenario
CHECK_DEADLOCK FALSE
