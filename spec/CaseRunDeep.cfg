SPECIFICATION Spec
CONSTANTS
  MaxFreq = 4
  MaxStop = 7
  MaxCmd = 2
INVARIANTS Increasing Frequencies Served Links Final Says
PROPERTIES Terminates OnceEnded
CHECK_DEADLOCK FALSE
