SPECIFICATION Spec
CONSTANT MaxDev = 3
INVARIANTS Accepted Sized Emit
CHECK_DEADLOCK FALSE
