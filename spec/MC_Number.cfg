SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Signed Canonical Exponent Scaling Emit
CHECK_DEADLOCK FALSE
