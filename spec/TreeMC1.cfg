SPECIFICATION MCSpec
CONSTANTS
  ND = 1
  MaxL = 4
  DoFill = FALSE
  Emit = TRUE
  MaxLeaves = 100
INVARIANTS NodesOK Tiling Closed Mutual BoundaryIff PointLocation FaceNbrDef
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Scenario
CHECK_DEADLOCK FALSE
