SPECIFICATION MCSpec
CONSTANTS
  ND = 2
  MaxL = 3
  MaxReq = 1
  MaxLeaves = 19
  Emit = TRUE
  Steps = 4
INVARIANTS Closed Balanced BalancedRegions LocksHold Honored Stable Idle
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Scenario
CHECK_DEADLOCK FALSE
