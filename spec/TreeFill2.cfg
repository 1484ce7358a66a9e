SPECIFICATION MCSpec
CONSTANTS
  ND = 2
  MaxL = 2
  DoFill = TRUE
  Emit = TRUE
  MaxLeaves = 7
INVARIANTS FillClosed Closed NodesOK
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Scenario
CHECK_DEADLOCK FALSE
