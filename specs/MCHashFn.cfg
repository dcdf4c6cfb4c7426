SPECIFICATION Spec
CONSTANTS
  Alpha = {0, 1, 127, 128, 255}
  MaxLen = 4
INVARIANTS RotBack RotOne XorSelf X33Is Sane Sensitive
CHECK_DEADLOCK FALSE
