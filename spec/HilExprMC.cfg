SPECIFICATION Spec
CONSTANTS
  Leaves = {"2", "0.5", "{ab}"}
  Ops = {"^", "#", "%", "/", "*", "-", "+", "==", "!=", ">=", "<=", "<", ">", "&", "|"}
  Uns = {"-", "#"}
  Spacing = " "
INVARIANT Computed Typed
CHECK_DEADLOCK FALSE
