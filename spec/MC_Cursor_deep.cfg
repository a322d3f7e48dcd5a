SPECIFICATION Spec
CONSTANTS
  MaxCols = 2
  Counts = {0, 1, 3}
  Rows = {0, 1, 2, 3}
  MaxOps = 4
INVARIANTS RowMajor Exhausts Emit
CHECK_DEADLOCK FALSE
