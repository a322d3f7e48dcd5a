SPECIFICATION Spec
CONSTANTS
  MaxCols = 2
  Counts = {0, 1, 2}
  Rows = {2}
  MaxOps = 3
INVARIANTS RowMajor Exhausts Emit
CHECK_DEADLOCK FALSE
