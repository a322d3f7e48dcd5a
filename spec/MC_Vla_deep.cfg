SPECIFICATION Spec
CONSTANTS
  Heap = 20
  E = 4
  Counts = {0, 1, 2, 3, 5}
  Offsets = {0, 1, 3, 4, 8, 12, 16, 20}
  Gaps = {0, 1, 5}
INVARIANTS Own Inside Emit
CHECK_DEADLOCK FALSE
