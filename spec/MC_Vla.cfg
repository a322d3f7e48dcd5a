SPECIFICATION Spec
CONSTANTS
  Heap = 12
  E = 4
  Counts = {0, 1, 2, 3}
  Offsets = {0, 3, 4, 8, 12}
  Gaps = {0, 5}
INVARIANTS Own Inside Emit
CHECK_DEADLOCK FALSE
