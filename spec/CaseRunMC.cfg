SPECIFICATION Spec
CONSTANTS
  MaxFreq = 3
  MaxStop = 5
  MaxCmd = 1
INVARIANTS Increasing Frequencies Served Links Final Says
PROPERTIES Terminates OnceEnded
CHECK_DEADLOCK FALSE
