SPECIFICATION Spec
CONSTANTS
  MaxPixels = 3
  BlockSizes = {1, 2, 3}
  Codes = {0, 1, 2, 9, 17, 25, 26}
  Many = FALSE
INVARIANTS RoundTrip Short Emit
CHECK_DEADLOCK FALSE
