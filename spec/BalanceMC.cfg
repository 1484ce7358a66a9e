SPECIFICATION Spec
CONSTANTS
  Meshes <- Small
  MaxStep = 2
  Q <- Flux
INVARIANTS Conserved Uniform
CHECK_DEADLOCK FALSE
