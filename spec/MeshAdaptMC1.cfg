SPECIFICATION MCSpec
CONSTANTS
  ND = 1
  MaxL = 4
  MaxReq = 2
  MaxLeaves = 9
  Emit = TRUE
  Steps = 5
INVARIANTS Closed Balanced BalancedRegions LocksHold Honored Stable Idle
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Scenario
CHECK_DEADLOCK FALSE
