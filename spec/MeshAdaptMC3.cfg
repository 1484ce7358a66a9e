SPECIFICATION MCSpec
CONSTANTS
  ND = 3
  MaxL = 3
  MaxReq = 1
  MaxLeaves = 29
  Emit = TRUE
  Steps = 3
INVARIANTS Closed Balanced BalancedRegions LocksHold Honored Stable Idle
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Scenario
CHECK_DEADLOCK FALSE
