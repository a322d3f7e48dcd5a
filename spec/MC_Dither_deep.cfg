SPECIFICATION Spec
CONSTANTS
  Zdithers = {1, 2, 77, 9999, 10000}
  Tiles = {0, 1, 2, 5}
  SeedOf <- RealSeed
INVARIANTS Indexes Bounded Emit
CHECK_DEADLOCK FALSE
