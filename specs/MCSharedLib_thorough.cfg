SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
MaxOps = 8
MaxRefs = 9
INVARIANTS LType Counted Nothing
CHECK_DEADLOCK FALSE
