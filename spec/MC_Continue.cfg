SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Order Values Closed Open Emit
CHECK_DEADLOCK FALSE
