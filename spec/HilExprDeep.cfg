SPECIFICATION Spec
CONSTANTS
  Leaves = {"2", "3", "0", "0.5", "4.", "{ab}"}
  Ops = {"^", "#", "%", "/", "*", "-", "+", "==", "!=", ">=", "<=", "<", ">", "&", "|"}
  Uns = {"-", "#", "!", "floor", "abs"}
  Spacing = " "
INVARIANT Computed Typed
CHECK_DEADLOCK FALSE
