SPECIFICATION Spec
CONSTANTS
  MaxIt = 12
  MaxStep = 4
INVARIANTS Bounded Ordered Fresh Current Covered Sparse
CHECK_DEADLOCK FALSE
