SPECIFICATION Spec
CONSTANTS
  MaxHdus = 3
  Kinds = {"image", "bintable"}
  Sizes = {0, 1, 4}
  Accesses = {"no", "part", "all", "past"}
INVARIANTS InOrder Complete Broken Intact Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
