SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Order Values Closed Open Emit
CHECK_DEADLOCK FALSE
