SPECIFICATION Spec
CONSTANTS
  Zdithers = {1, 9999}
  Tiles = {0, 1, 2}
  SeedOf <- RealSeed
INVARIANTS Indexes Bounded Emit
CHECK_DEADLOCK FALSE
