SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  MaxOps = 6
  MaxGens = 3
  ReadPrepares = TRUE
  RepProlongs = TRUE
INVARIANTS Consistent FilesKnown CurKnown OneMesh
CHECK_DEADLOCK FALSE
