SPECIFICATION Spec
CONSTANTS
  MaxAxis = 4
  Depths = {1, 3}
  RecordOf <- NoRecord
  CardOf <- NoRecord
  SeedOf <- NoSeed
INVARIANTS Partition Numbered Emit
CHECK_DEADLOCK FALSE
