SPECIFICATION Spec
CONSTANTS
  MaxDoc = 13
  Caps = {0, 6, 20}
  D = 3
INVARIANTS Fit Deep Denotes
CONSTRAINT Short
CHECK_DEADLOCK FALSE
