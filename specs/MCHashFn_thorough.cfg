SPECIFICATION Spec
CONSTANTS
  Alpha = {0, 1, 255}
  MaxLen = 9
INVARIANTS RotBack RotOne XorSelf X33Is Sane Sensitive
CHECK_DEADLOCK FALSE
