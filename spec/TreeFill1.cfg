SPECIFICATION MCSpec
CONSTANTS
  ND = 1
  MaxL = 3
  DoFill = TRUE
  Emit = TRUE
  MaxLeaves = 7
INVARIANTS FillClosed Closed NodesOK
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Scenario
CHECK_DEADLOCK FALSE
