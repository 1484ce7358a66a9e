SPECIFICATION MCSpec
CONSTANTS
  SA = {1, 2, 3}
  SB = {11, 12}
INVARIANTS Symmetric NoDangling
VIEW View
ACTION_CONSTRAINT Scenario
CHECK_DEADLOCK FALSE
