CONSTANTS
  ND = 2
  Size = 2
  Vals = {0, 1, 3}
  Broken = FALSE
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS Inverse Equivariant
CHECK_DEADLOCK FALSE
