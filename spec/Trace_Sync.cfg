SPECIFICATION Spec
CONSTANTS
  RecordOf <- TraceRecord
  CardOf <- TraceCard
  SeedOf <- TraceSeed
INVARIANT Conforms
CHECK_DEADLOCK FALSE
