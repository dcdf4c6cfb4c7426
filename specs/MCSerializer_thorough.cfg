SPECIFICATION Spec
CONSTANTS
  MaxDoc = 17
  Caps = {0, 6, 20}
  D = 3
INVARIANTS Fit Deep Denotes
CONSTRAINT Short
CHECK_DEADLOCK FALSE
