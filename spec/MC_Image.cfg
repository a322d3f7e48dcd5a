SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxOps = 3
INVARIANTS Consecutive Inside Emit
CHECK_DEADLOCK FALSE
