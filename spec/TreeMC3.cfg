SPECIFICATION MCSpec
CONSTANTS
  ND = 3
  MaxL = 2
  DoFill = FALSE
  Emit = TRUE
  MaxLeaves = 36
INVARIANTS NodesOK Tiling Closed Mutual BoundaryIff FaceNbrDef
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Scenario
CHECK_DEADLOCK FALSE
