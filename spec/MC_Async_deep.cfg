SPECIFICATION Spec
CONSTANTS
  MaxPlan = 4
  Steps = {0, 1, 2, 4}
  R = 3
  Item = 2
  Sizes = {0, 2, 5}
  Takes = {0, 1, 9}
INVARIANTS Found Consecutive Account Outcome Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
