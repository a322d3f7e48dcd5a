SPECIFICATION Spec
CONSTANTS
  MaxAxis = 6
  Depths = {1, 2, 3, 4}
  RecordOf <- NoRecord
  CardOf <- NoRecord
  SeedOf <- NoSeed
INVARIANTS Partition Numbered Emit
CHECK_DEADLOCK FALSE
