SPECIFICATION Spec
CONSTANTS
  MaxPlan = 3
  Steps = {0, 1, 4}
  R = 3
  Item = 2
  Sizes = {0, 2, 5}
  Takes = {1, 9}
INVARIANTS Found Consecutive Account Outcome Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
