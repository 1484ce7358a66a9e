SPECIFICATION Spec
CONSTANTS
  Meshes <- Large
  MaxStep = 1
  Q <- Flux
INVARIANTS Conserved Uniform
CHECK_DEADLOCK FALSE
