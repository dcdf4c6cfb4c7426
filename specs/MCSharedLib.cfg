SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
MaxOps = 6
MaxRefs = 9
INVARIANTS LType Counted Nothing
CHECK_DEADLOCK FALSE
