SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxOps = 5
INVARIANTS Consecutive Inside Emit
CHECK_DEADLOCK FALSE
