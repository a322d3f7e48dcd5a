SPECIFICATION Spec
CONSTANTS
  MaxPixels = 2
  BlockSizes = {1, 2, 3}
  Codes = {0, 1, 3, 16, 18, 25, 26}
  Many = TRUE
INVARIANTS RoundTrip Short Emit
CHECK_DEADLOCK FALSE
