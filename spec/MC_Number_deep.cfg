SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS Signed Canonical Exponent Scaling Emit
CHECK_DEADLOCK FALSE
