SPECIFICATION Spec
CONSTANT MaxDev = 2
INVARIANTS Accepted Sized Emit
CHECK_DEADLOCK FALSE
