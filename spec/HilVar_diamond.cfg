SPECIFICATION Spec
VIEW View
CONSTANTS
  Shape = "diamond"
  Values = {"1", "0.5", "p"}
  Gen = TRUE
INVARIANT Innermost
PROPERTY KeepsType Local ErrorsChangeNothing
CHECK_DEADLOCK FALSE
