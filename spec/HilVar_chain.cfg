SPECIFICATION Spec
VIEW View
CONSTANTS
  Shape = "chain"
  Values = {"1", "2", "0.5", "p"}
  Gen = TRUE
INVARIANT Innermost
PROPERTY KeepsType Local ErrorsChangeNothing
CHECK_DEADLOCK FALSE
