SPECIFICATION Spec
CONSTANTS MaxN = 4
MaxSrc = 7
W = 4
INVARIANTS Fresh
CHECK_DEADLOCK FALSE
