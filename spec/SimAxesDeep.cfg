CONSTANTS
  ND = 3
  Size = 2
  Vals = {0, 1}
  Broken = FALSE
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS Inverse Equivariant
CHECK_DEADLOCK FALSE
