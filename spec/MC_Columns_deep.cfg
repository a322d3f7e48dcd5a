SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  SeedOf <- NoSeed
  RecordOf <- NoRecord
  CardOf <- NoRecord
INVARIANTS BinAgrees AscAgrees Emit
CHECK_DEADLOCK FALSE
