SPECIFICATION Spec
CONSTANTS
  MaxHdus = 2
  Kinds = {"image", "bintable", "ascii"}
  Sizes = {0, 1, 4, 5}
  Accesses = {"no", "part", "past"}
INVARIANTS InOrder Complete Broken Intact Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
